"""Runs the record families: scenarios -> real code -> TLA+ verdicts."""
import copy
import importlib

from core import SpecDomain, ToolError

EXTRA = {"C05": "freq", "C06": "freq", "C12": "par"}
FAM = {"C04": "freq", "C14": "par", "C23": "routine", "C25": "plot", "C26": "plot", "C27": "map", "C28": "example", "C13": "fields", "C24": "log", "C18": "geo", "C20": "geo", "C21": "geo", "C22": "geo",
       "C15": "hist", "C16": "hist", "C17": "hist", "C19": "hist"}


def judge_all(ck, module, recs, shards, extra=None):
    """verdicts for all records: list of failures with the record's index"""
    parts = [list(range(i, len(recs), shards)) for i in range(shards)]
    parts = [p for p in parts if p]

    def job(part):
        doc = dict(extra or {}, recs=[recs[i] for i in part])
        try:
            res = ck.judge(module, doc)
        except SpecDomain as ex:
            # a recorded value the specification has no meaning for
            if len(part) == 1:
                return [{"rec": part[0], "clause": "recording.domain", "info": str(ex)[-400:]}]
            h = len(part) // 2
            return job(part[:h]) + job(part[h:])
        if res["n"] != len(part):
            raise ToolError("%s judged %d of %d records" % (module, res["n"], len(part)))
        return [dict(f, rec=part[f["rec"] - 1]) for f in res["fails"]]
    out = []
    for r in ck.parallel([lambda p=p: job(p) for p in parts], shards):
        out += r
    return out


def run(ck, prop, name=None):
    fam = importlib.import_module("fam_" + (name or FAM[prop]))
    clauses = fam.CLAUSES[prop] + ("recording.domain",)
    jobs = []
    models = getattr(fam, "models", None)
    if models:
        jobs.append(lambda: models(ck, prop))
    scen = fam.scenarios(ck, prop, ck.rng)
    n = getattr(fam, "DRIVERS", 4)
    parts = [scen[i::n] for i in range(n) if scen[i::n]]
    jobs += [lambda p=p: ck.drive(fam.NAME, {"scen": p}) for p in parts]
    res = ck.parallel(jobs, 8)
    if models:
        res = res[1:]
    recs, src = [], []
    for part, r in zip(parts, res):
        for s, rec in zip(part, r["recs"]):
            for x in (rec if isinstance(rec, list) else [rec]):
                if "crash" in x:
                    ck.add_fail("recording.failed", x["crash"], {"scenario": s})
                    continue
                recs.append(x)
                src.append(s)
    real = len(recs)
    try:
        bad, broke = fam.corrupt(prop, copy.deepcopy(recs), ck.rng), ""
    except Exception as ex:         # the recordings themselves are malformed
        bad, broke = [], repr(ex)
    fails = judge_all(ck, fam.MODULE, recs + bad, getattr(fam, "SHARDS", 6))
    hit = [f for f in fails if f["rec"] < real and f["clause"].startswith(clauses)]
    caught = {f["rec"] for f in fails if f["rec"] >= real and f["clause"].startswith(clauses)}
    if broke and not hit and not ck.fails:
        raise ToolError("binding self test: " + broke)
    if not hit and not ck.fails and (not bad or len(caught) < len(bad)):
        raise ToolError("binding self test: %d of %d corrupted recordings accepted"
                        % (len(bad) - len(caught), len(bad)))
    for f in hit:
        ck.add_fail(f["clause"], f["info"], {"scenario": src[f["rec"]], "record": recs[f["rec"]]},
                    "record %d" % (f["rec"] + 1))
    ck.traces += real
    ck.cov.setdefault("records", []).append(
        {"module": fam.MODULE, "records_judged": real,
         "corrupted_recordings_rejected": len(caught), "clauses": list(clauses)})
    ck.samples += [{"scenario": s} if len(str(s)) < 3000 else {"scenario_kind": s.get("kind", "")}
                   for s in scen[:3]]
