import specs_seg
JOBS = specs_seg.Family('split', specs_seg.Split).JOBS
