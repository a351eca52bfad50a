"""The table of checks: what each property's harness is built from."""
import os
R = "runs"
CHECKS = {}
def simple(cid, **kw):
    CHECKS[cid] = {R: [dict(label="main", **kw)]}
simple("C23")
simple("C33")
simple("C20")
simple("C21")
CHECKS["C35"] = {R: [dict(label="main", quick_scale=10), dict(label="query_ids", defines="-DUSE_QUERY_IDS", quick_scale=10)]}
SCHED = "-DSCHED -DNONDET=0 -include " + os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness/fibre.h")
def concurrent(cid, **kw):
    """generated interleavings, histories under ASan with real threads, real threads under TSan"""
    CHECKS[cid] = {R: [dict(label="main", defines="-DNONDET=1", **kw),
                       dict(label="schedules", variant="plain", defines=SCHED, **kw),
                       dict(label="tsan", variant="tsan", defines="-DNONDET=1 -DTSAN", **kw)]}
concurrent("C19")
concurrent("C18", quick_scale=4)
concurrent("C17", quick_scale=4)
simple("C16", quick_scale=12)
simple("C29", quick_scale=1.5)
simple("C25", quick_scale=4)
simple("C14")
simple("C13")
simple("C12")
simple("C10", quick_scale=6)
simple("C24")
simple("C11")
simple("C15", quick_scale=12)
simple("C22")
simple("C01", quick_scale=1)
simple("C02")
simple("C03")
simple("C09", quick_scale=0.6)
simple("C26", quick_scale=3)
CHECKS["C07"] = {R: [dict(label="main", defines="-DDEFAULT_STRATEGY", quick_scale=1),
                     dict(label="counter8_partial_sort", defines="-DLAYOUT=1 -DFINAL_SORT=1", quick_scale=0.35),
                     dict(label="counter4_sort", defines="-DLAYOUT=2 -DFINAL_SORT=2", quick_scale=0.35),
                     dict(label="interleaved8_topk", defines="-DLAYOUT=3 -DFINAL_SORT=0", quick_scale=0.35),
                     dict(label="interleaved8_1_sort", defines="-DLAYOUT=4 -DFINAL_SORT=2", quick_scale=0.35),
                     dict(label="interleaved4_partial_sort", defines="-DLAYOUT=5 -DFINAL_SORT=1", quick_scale=0.35),
                     dict(label="2d_64_avx512", defines="-DLAYOUT=0 -DACCUMULATOR_64s=1 -DFINAL_SORT=3", quick_scale=0.35),
                     dict(label="2d_beap_simd", defines="-DLAYOUT=0 -DACCUMULATOR_POINTER_BEAP=1 -DSIMD_JASS -DSIMD_JASS_GROUP_ADD_RSV -DSIMD_ADD_RSV_AFTER_CUMSUM -DPRE_SIMD -DFINAL_SORT=1", quick_scale=0.35),
                     dict(label="counter8_64_topk", defines="-DLAYOUT=1 -DACCUMULATOR_64s=1 -DFINAL_SORT=0", quick_scale=0.35)]}
simple("C04")
simple("C05")
simple("C31")
simple("C28", quick_scale=2)
CHECKS["C06"] = {R: [dict(label="main", defines="-DNONDET=1"),
                     dict(label="schedules", variant="plain", defines=SCHED, quick_scale=20),
                     dict(label="tsan", variant="tsan", defines="-DNONDET=1 -DTSAN", quick_scale=0.15, env={"PBT_WORKERS": "5"})]}
simple("C08", quick_scale=0.8)
CHECKS["C30"] = {R: [dict(label="main", quick_scale=3)], "programs": {"dump": ("asan", "tools/JASSv1_to_human.cpp", []), "integers": ("asan", "tools/bin_to_human.cpp", [])}}
CHECKS["C34"] = {R: [dict(label="main", quick_scale=3)], "programs": {"topics": ("asan", "tools/trec_to_query.cpp", []), "eval": ("asan", "tools/JASS_eval.cpp", [])}}
CHECKS["C32"] = {R: [dict(label="main", quick_scale=2)], "programs": {"indexer": ("asan", "tools/JASS_index.cpp", []), "searcher": ("asan", "anytime/JASS_anytime.cpp", [])}}
CHECKS["C27"] = {R: [dict(label="main", quick_scale=3)], "programs": {"import": ("asan", "tools/ciff_to_JASS.cpp", [])}}
CHECKS["C36"] = {R: [dict(label="main")], "programs": {"assessments": ("asan", "tools/ECOM19_to_JASS_eval.cpp", []), "run": ("asan", "tools/ECOM19_to_run.cpp", []), "check": ("asan", "tools/test_integer_compress.cpp", []), "average": ("asan", "tools/test_integer_compress_average.cpp", []), "hash": ("asan", "tools/hash.cpp", [])}}
