import specs_coll
JOBS = {'function_'+k: v for k, v in specs_coll.JOBS.items()}
