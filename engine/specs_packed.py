import specs_seg
JOBS = specs_seg.Family('packed', specs_seg.Packed).JOBS
