"""The algorithms over function_collection."""
import specs_algo as s, specs_algo2 as t; s.PREFIX = 'algorithm(function_collection).'; s.JOBS = {}; s.build_all(); t.build(); JOBS = s.JOBS
