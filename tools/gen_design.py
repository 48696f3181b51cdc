import json,sys
sys.path.insert(0,'/verif/run'); import props
P={json.loads(l)['id']:json.loads(l) for l in open('/verif/properties.jsonl')}
extra={
"P01":"Oracle: exact sum of the stand-ins' values, compared as polynomials over the reals (Kahan error terms vanish).",
"P02":"Oracle: direct discrete convolution with zero padding and the normalised kernel. FFTW is replaced by the definition of the DFT. Seed B01.",
"P03":"Oracle: block means at sub-pixel centres, all other pixels bit-equal. Seed B03.",
"P04":"Two identical models, one of them used before; answers compared bit for bit. Expression identity plus intervals decide every query, so Z3 is hardly called. The weight image of model-based noise is excluded: it is the one of the last statistic, by design.",
"P05":"Two models that differ only in masked pixels; statistics compared bit for bit. Known finding P05-huge.",
"P06":"Oracle: the documented noise formulas. Seed B05.",
"P07":"Oracle: the documented statistic formulas; mp_enorm replaced by its definition there and decided in P08. Known finding P07-negative-model. Seed B02.",
"P08":"Exact arithmetic for the scaling branches; full IEEE for NaN. Two queries stay undecided within the time limit (reported, not hidden).",
"P16":"Known finding P16-single-char (its repair would change the archived output of a stable test).",
"P20":"The minimisers are run with an arbitrary statistic (uninterpreted function) and arbitrary random draws; every candidate handed to the model must be inside the limits.",
"P25":"Two queries stay undecided.",
"P26":"Known finding P26-oversampled-flux (the reference image of do_makeimage_tests contains it).",
"P27":"Every array of doubles really allocated is recorded (calloc, malloc, fftw_malloc redirected at compile time in repository sources) and compared with the estimate. Known findings P27-psf, P27-other-solvers: the estimate is printed into archived outputs of stable tests, so the under-counts are recorded; the checks allow exactly these shortfalls and no others.",
"P29":"Only memory kinds of the engine are judged (out of bounds, use after free, wrong free, uninitialised use), so a functional bug is reported by its own property.",
"P32":"The check found five defects in the profile code (repaired).",
}
out=["\n## Per property\n","Method for all: symbolic execution of the functions compiled from /repo on this run; Z3 decides feasibility and assertions; counterexamples are replayed natively. Bounds and cost of each entry are below; the same text goes to the evidence file. Outside the bounds nothing is claimed.\n"]
for i in sorted(P):
    if i not in props.PROPS: continue
    q=props.PROPS[i]; out.append("### %s %s"%(i,P[i]['title'])); 
    for g in q['groups']:
        for e in g['entries']: out.append("- `%s`%s: %s"%(e['fn']," (thorough only)" if e.get('thorough') or g.get('tier') else "",e['bounds']))
    out.append("- real code: "+", ".join(sorted({s for g in q['groups'] for s in g['src']})[:14]) + (" ..." if len({s for g in q['groups'] for s in g['src']})>14 else ""))
    if q.get('assumptions'): out.append("- assumes: "+"; ".join(q['assumptions']))
    o=q.get('outside')
    if o: out.append("- outside: "+("; ".join(o) if isinstance(o,list) else o))
    if i in extra: out.append("- "+extra[i])
    out.append("")
out.append("""## Not applicable
- P22 (MCMC): the chain update is interleaved with file output through C++ streams and a global random generator inside one 400-line loop of cdream (`dream`); its unrolling needs stream internals that cannot be encoded within reach here. Parts of it that are plain functions (random generator: P23) are covered.
- P30: option-driven set-up calls exit() on errors and reads FITS files; CFITSIO cannot be encoded, and with it stubbed out what remains (dimension tests) was not reached in the time available.
- P31: OpenMP regions are executed by the engine with one thread; no encoding of schedules was built.
- P33: FITS input/output is done inside CFITSIO, a library without source or IR here.
- P34: convergence of a floating-point iteration to a local optimum for any model is not a bounded assertion.

## Seeds and which checks catch them
B01 P02, B02 P07, B03 P03, B05 P06 (and B04 P05, kept in the history of this repository only, to save vcheck time): each caught by the check of its own property (vcheck). Before planting, mutants of P09-P28 code were tried in scratch clones; misses led to stronger harnesses (e.g. non-square PSFs, extended masks, second evaluations on the same model).

## False alarms corrected
- P29 harness freed pixels that a PsfOversamplingInfo with isUnique=true owns (double free in the harness): corrected in the harness.
- P04 asked for the weight image of model-based noise after CreateModelImage: by design it is the weight image of the last statistic; removed. PSFs must be added before the image (documented order): the harness did it the other way round.
- P27 required at first that copies of the main PSF be counted separately; other terms of the estimate are generous enough, so only the total is judged.

## Recorded rather than repaired
Entries with status "known" in known_findings.json; each is a separate harness entry, so a different violation of the same property is still reported. 51 defects were repaired (status "fixed").
""")
s=open('/verif/DESIGN.md').read()
i=s.index('## Per property') if '## Per property' in s else s.index('## Properties'); open('/verif/DESIGN.md','w').write(s[:i].replace("(First version, written before building; per-property detail is refined below as checks land.)\n\n","")+"".join(x+"\n" for x in out))
