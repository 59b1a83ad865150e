import specs_coll
JOBS = {'base_'+k: v for k, v in specs_coll.JOBS.items()}
