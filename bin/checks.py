# The checks: property -> jobs (see runner.py)
def trace(name, src, spec, args, quick, thorough=None, **kw):
    d = dict(type="trace", name=name, src=src, spec=spec, args=args, quick=quick, thorough=thorough or quick * 12)
    d.update(kw); return d
def model(name, spec, cfg=None, **kw):
    d = dict(type="model", name=name, spec=spec, cfg=cfg or spec); d.update(kw); return d

def known(name, src, spec, args, **kw):
    d = dict(type="known", name=name, src=src, spec=spec, args=args); d.update(kw); return d

NOT_APPLICABLE = {}
CHECKS = {
  "C01": dict(level="model_checking", jobs=[
      trace("bool90", "m90.cpp", "TraceManh", ["bool"], 16000)],
      must_see=["Bin", "BinA", "Asg", "Ins", "Set", "Copy"]),
  "C02": dict(level="model_checking", jobs=[
      trace("count90", "m90.cpp", "TraceManh", ["count"], 20000)],
      must_see=["Ins", "SelfInt", "SelfXor", "Clear", "Clean"]),
  "C03": dict(level="model_checking", jobs=[
      trace("canon90", "m90.cpp", "TraceManh", ["canon"], 16000)],
      must_see=["Eq", "Empty", "Ext", "Size", "Area"]),
  "C04": dict(level="model_checking", jobs=[
      trace("form90", "m90.cpp", "TraceManh", ["form"], 14000),
      known("vertex-limit", "m90.cpp", "TraceManh", ["kf-vertex-limit"])],
      must_see=["Form"]),
  "C05": dict(level="model_checking", jobs=[
      trace("rects90", "m90.cpp", "TraceManh", ["rects"], 10000)],
      must_see=["Rects", "MaxRects"]),
  "C06": dict(level="model_checking", jobs=[
      trace("morph90", "m90b.cpp", "TraceManhMetric", ["morph"], 10000)],
      must_see=["Bloat", "Shrink", "Resize", "GrowAnd"]),
  "C07": dict(level="model_checking", jobs=[
      trace("affine90", "m90b.cpp", "TraceManhMetric", ["affine"], 10000)],
      must_see=["Map", "Squeeze", "Keep", "MapObj", "MapPts", "RndPts"]),
  "C08": dict(level="model_checking", jobs=[
      trace("conn90", "m90c.cpp", "TraceManhRel", ["conn"], 16000)],
      must_see=["Conn", "Interact", "Size"]),
  "C09": dict(level="model_checking", jobs=[
      trace("merge90", "m90c.cpp", "TraceManhRel", ["merge"], 4000)],
      must_see=["Merge"]),
  "C10": dict(level="model_checking", jobs=[
      trace("bool45", "s45.cpp", "TraceSet45", ["bool"], 6000),
      trace("snap45", "s45.cpp", "TraceSet45", ["snap"], 3000)],
      must_see=["Bin", "BinA", "Asg", "Ins", "Err"]),
  "C11": dict(level="model_checking", jobs=[
      trace("form45", "s45.cpp", "TraceSet45", ["form"], 6000)],
      must_see=["Form", "Traps"]),
  "C12": dict(level="model_checking", jobs=[
      trace("query45", "s45.cpp", "TraceSet45", ["query"], 5000),
      trace("metric45", "s45.cpp", "TraceSet45", ["metric"], 2000)],
      must_see=["Eq", "Empty", "Ext", "Area", "Resize", "InsSz", "GrowAnd", "Map", "Keep", "See", "Manh"]),
  "C13": dict(level="model_checking", jobs=[
      trace("rel45", "s45.cpp", "TraceSet45", ["rel"], 6000)],
      must_see=["Conn", "Merge", "Interact"]),
  "C14": dict(level="model_checking", jobs=[
      trace("boolgen", "sgen.cpp", "TraceSetGen", ["bool"], 4000),
      trace("snapgen", "sgen.cpp", "TraceSetGen", ["snap"], 3000),
      trace("widegen", "sgen.cpp", "TraceSetGen", ["wide"], 800),
      trace("querygen", "sgen.cpp", "TraceSetGen", ["query"], 4000)],
      must_see=["Bin", "BinA", "Asg", "Ins", "Set", "Copy", "Clean", "Eq", "Empty", "Ext", "Area", "Image", "Keep"]),
  "C15": dict(level="model_checking", jobs=[
      trace("formgen", "sgen.cpp", "TraceSetGen", ["form"], 6000),
      trace("wideform", "sgen.cpp", "TraceSetGen", ["wideform"], 800)],
      must_see=["Form", "Traps"]),
  "C16": dict(level="model_checking", jobs=[
      trace("relgen", "sgen.cpp", "TraceSetGen", ["rel"], 5000),
      trace("widerel", "sgen.cpp", "TraceSetGen", ["widerel"], 600)],
      must_see=["Conn", "Merge", "Interact"]),
  "C17": dict(level="model_checking", jobs=[
      trace("split", "seg.cpp", "TraceSegSet", ["split"], 10000),
      trace("splitsnap", "seg.cpp", "TraceSegSet", ["snap"], 10000)],
      must_see=["Load", "Split", "Env"]),
  "C18": dict(level="model_checking", jobs=[
      trace("engmix", "eng.cpp", "TraceEngines", ["mix"], 14000),
      trace("engmink", "eng.cpp", "TraceEngines", ["mink"], 300, 1500)],
      must_see=["Set", "Ins", "Bin", "BinA", "Asg", "Copy", "Eq", "Area", "Empty", "Mink"]),
  "C19": dict(level="model_checking", jobs=[
      trace("measure", "poly.cpp", "TraceMeasure", ["measure"], 25000)],
      must_see=["Load", "Ask", "Has", "Do", "Snap"]),
  "C20": dict(level="model_checking", jobs=[
      trace("vorotopo", "voro.cpp", "TraceVoroTopo", ["small"], 15000),
      trace("vorotopowide", "voro.cpp", "TraceVoroTopo", ["wide"], 15000),
      trace("vorotopocases", "voro.cpp", "TraceVoroTopo", ["cases"], 10)] + [
      known(k, "voro.cpp", "TraceVoroTopo", ["kf-" + k]) for k in ("nearly-tangent", "unit-apart", "points-unit-apart", "lost-segment")],
      must_see=["P", "S", "Build", "Clear"]),
  "C21": dict(level="model_checking", jobs=[
      trace("vorogeo", "voro.cpp", "TraceVoro", ["small"], 2500),
      trace("vorogeowide", "voro.cpp", "TraceVoro", ["wide"], 1500),
      trace("vorogeocases", "voro.cpp", "TraceVoro", ["cases"], 10),
      known("vertical-tangent", "voro.cpp", "TraceVoro", ["kf-vertical-tangent"])],
      must_see=["P", "S", "Build", "Clear"]),
  "C22": dict(level="model_checking", jobs=[
      trace("preddirect", "pred.cpp", "TraceVoroPred", ["direct"], 6000),
      trace("predrun", "pred.cpp", "TraceVoroPred", ["run"], 3000),
      trace("predwide", "pred.cpp", "TraceVoroPred", ["wide"], 1200)],
      must_see=["Turn", "Cross", "SiteLess", "SiteFirst", "CircleLess", "Above", "Circle"]),
  "C23": dict(level="model_checking", jobs=[
      trace("numint", "num.cpp", "TraceNum", ["int"], 2500),
      trace("numfpt", "num.cpp", "TraceNum", ["fpt"], 4000)],
      must_see=["ISet", "IOp", "ICmp", "IFp", "FSet", "FOp", "FAsk", "Ulp", "DOp", "DDiv", "Sqrt", "RSet", "ROp", "RSqrt"]),
  "C24": dict(level="model_checking", jobs=[
      trace("algrect", "alg.cpp", "TraceAlgebra", ["rect"], 20000)],
      must_see=["Load", "IA", "ID", "PA", "PD", "RA", "RD", "Dir"]),
  "C25": dict(level="model_checking", jobs=[
      trace("algseg", "alg.cpp", "TraceAlgebra", ["seg"], 20000)],
      must_see=["Load", "SA", "SD", "PA"]),
  "C26": dict(level="model_checking", jobs=[
      trace("isodirs", "iso.cpp", "TraceIso", ["dirs"], 4000),
      trace("isomaps", "iso.cpp", "TraceIso", ["maps"], 40000)],
      must_see=["D1", "O2", "D2", "O3", "D3", "Ax", "AxCmp", "Tr", "Img", "TrCmp", "Sc", "Scaled"]),
  "C27": dict(level="model_checking", jobs=[
      trace("grow", "grow.cpp", "TraceGrow", ["all"], 6000)],
      must_see=["Load", "Round", "Miter"])
}
