"""What each check consists of."""

CHECKS = {}


def types(**kw):
    return kw


CHECKS["C05"] = dict(
    harness="convolution",
    parts={n: ["VP_OLA=0", "VP_U=" + u, "VP_V=" + v] for n, u, v in [
        ("f", "float", "float"), ("d", "double", "double"), ("cf", "cf", "cf"), ("fcf", "float", "cf"),
        ("cdd", "cd", "double"), ("i", "int", "int")]},
    trace="ConvolutionTrace", selftest_key="mem", selftest_ops=("Conv", "ConvValue"),
    mc=[("ConvolutionMC", "ConvolutionMC.cfg"), ("ConvolutionMC", "ConvolutionMC_complex.cfg")],
    mc_deep=[("ConvolutionMC", "ConvolutionMC_deep.cfg")],
    mc_actions=("DoInto", "DoMode", "DoRefuse"),
    required=("Conv", "ConvValue", "Refuse", "Length"),
)
CHECKS["C06"] = dict(
    harness="convolution",
    parts={n: ["VP_OLA=1", "VP_U=" + u, "VP_V=" + v] for n, u, v in [
        ("f", "float", "float"), ("d", "double", "double"), ("cf", "cf", "cf"), ("fcf", "float", "cf"),
        ("cdd", "cd", "double")]},
    trace="ConvolutionTrace", selftest_key="mem", selftest_ops=("Ola", "OlaValue"),
    mc=[("ConvolutionMC", "ConvolutionMC.cfg"), ("ConvolutionMC", "ConvolutionMC_complex.cfg")],
    mc_deep=[("ConvolutionMC", "ConvolutionMC_deep.cfg")],
    mc_actions=("DoOverlapAdd", "DoRefuse"),
    required=("Ola", "OlaValue", "Refuse", "Length"),
)


def flat(x):
    """All numbers of a nested list or record in order."""
    if isinstance(x, dict):
        return [n for v in x.values() for n in flat(v)]
    if isinstance(x, list):
        return [n for v in x for n in flat(v)]
    return [int(x)]


def as_line(prefix=()):
    return lambda x: " ".join(str(n) for n in list(prefix) + flat(x))


CHECKS["C07"] = dict(
    harness="firstream",
    parts={n: ["VP_U=" + u, "VP_V=" + v] for n, u, v in [
        ("f", "float", "float"), ("d", "double", "double"), ("cf", "cf", "cf"), ("fcf", "float", "cf"), ("cdd", "cd", "double")]},
    trace="FirStreamTrace", selftest_key="post", selftest_ops=("Block", "Whole"),
    mc=[("FirStreamMC", "FirStreamMC.cfg")],
    mc_deep=[("FirStreamMC", "FirStreamMC_deep.cfg")],
    mc_actions=("DoBlock", "Refuse"),
    gen=[dict(module="FirStreamGen", mode="all", quick=0, deep=0, deep_cfg="FirStreamGen_deep.cfg",
              convert=lambda x: as_line()([x["n"], x["plan"]]))],
    required=("Start", "Block", "Whole", "Refuse"),
)

CHECKS["C08"] = dict(
    harness="iir",
    parts={n: ["VP_T=" + t, "VP_K=" + k] for n, t, k in [
        ("f", "float", "float"), ("d", "double", "double"), ("df", "double", "float"), ("cd", "cd", "double"), ("cf", "cf", "float")]},
    trace="IirTrace", selftest_key="post", selftest_ops=("Feed",),
    mc=[("IirMC", "IirMC.cfg")],
    mc_deep=[("IirMC", "IirMC_deep.cfg")],
    mc_actions=("DoFeed", "DoReset"),
    gen=[dict(module="IirGen", quick=400, deep=4000, depth=26, convert=as_line())],
    required=("System", "Sections", "New", "Reset", "Reorder", "Copy", "Feed", "Refuse"),
)


def steps(plan):
    """Steps of different lengths, separated by semicolons."""
    return ";".join(" ".join(str(n) for n in flat(s)) for s in plan)


CHECKS["C10"] = dict(
    harness="factoredpoly",
    parts={"f": ["VP_T=float"], "d": ["VP_T=double"]}, shards=2,
    trace="FactoredPolyTrace", selftest_key="post", selftest_ops=("Resize", "Regroup", "Copy", "Expand", "Counts"),
    mc=[("FactoredPolyMC", "FactoredPolyMC.cfg")], mc_deep=[("FactoredPolyMC", "FactoredPolyMC_deep.cfg")],
    mc_actions=("Put", "FromRoots", "RefuseRoots", "Resize", "DoRegroup", "RefuseRegroup", "Copy", "Move"),
    gen=[dict(module="FactoredPolyGen", quick=600, deep=6000, depth=20, convert=steps)],
    required=("Default", "FromRoots", "RefuseRoots", "Resize", "Regroup", "RefuseRegroup", "SetReal", "SetPair", "Copy", "Move",
              "Counts", "Expand", "Eval", "Poly", "Map", "RefuseMap", "Gain"),
)

CHECKS["C09"] = dict(
    harness="linearsystems",
    parts={"f": ["VP_T=float"], "d": ["VP_T=double"]}, shards=3,
    trace="LinearSystemsTrace", selftest_key="post", selftest_ops=("Transfer", "Orders"),
    mc=[("LinearSystemsMC", "LinearSystemsMC.cfg")], mc_deep=[("LinearSystemsMC", "LinearSystemsMC_deep.cfg")],
    mc_actions=("DoDefine", "DoBilinear", "DoLow", "DoHigh", "DoBand"),
    required=("System", "Orders", "Transfer", "Cascade", "Eval", "Prewarp", "Bilinear", "Band"),
)

STORE = {n: ["VP_T=" + t, "VP_D=" + d] for n, t, d in [
    ("f", "float", "TIME"), ("i", "int", "DOMAINLESS"), ("cd", "cd", "FREQUENCY"), ("d", "double", "QUEFRENCY")]}
CHECKS["C01"] = dict(
    harness="signalstore", parts=STORE, shards=2,
    trace="SignalStoreTrace", selftest_key="post", selftest_ops=("Make", "Insert", "Erase", "ExtractFront", "Resize"),
    mc=[("SignalStoreMC", "SignalStoreMC.cfg")], mc_deep=[("SignalStoreMC", "SignalStoreMC_deep.cfg")],
    mc_actions=("Put", "Copy", "Move", "Swap", "Resize", "Insert", "PushBack", "Erase", "ExtractFront", "ExtractBack", "RefuseExtract"),
    gen=[dict(module="SignalStoreGen", quick=500, deep=8000, depth=33, convert=steps)],
    required=("Make", "Fill", "Copy", "Move", "Swap", "Resize", "Reserve", "Clear", "Append", "Prepend", "Insert", "InsertSeq",
              "PushBack", "Erase", "ExtractFront", "ExtractBack", "RefuseExtract", "Write"),
)
CHECKS["C02"] = dict(
    harness="signalstore", parts=STORE, shards=2,
    trace="SignalStoreTrace", selftest_key="post", selftest_ops=("ViewOf", "SubView", "WriteView"),
    mc=[("SignalStoreMC", "SignalStoreMC.cfg")], mc_deep=[("SignalStoreMC", "SignalStoreMC_deep.cfg")],
    mc_actions=("ViewOf", "SubView", "Write", "WriteView"),
    gen=[dict(module="SignalStoreGen", cfg="SignalStoreGen_views.cfg", quick=500, deep=8000, depth=33, convert=steps)],
    required=("ViewOf", "SubView", "RefuseView", "WriteView", "Write"),
)

CHECKS["C03"] = dict(
    harness="elementwise",
    parts={n: ["VP_T=" + t, "VP_U=" + u, "VP_R=" + r] + x for n, t, u, r, x in [
        ("f", "float", "float", "float", []), ("d", "double", "double", "double", ["NDEBUG"]), ("i", "int", "int", "int", []),
        ("cf", "cf", "cf", "cf", []), ("fcf", "float", "cf", "cf", []), ("cdd", "cd", "double", "cd", ["NDEBUG"]),
        ("fd", "float", "double", "double", []), ("ffd", "float", "float", "double", [])]},
    trace="ElementwiseTrace", selftest_key="mem", selftest_ops=("Into", "Value"),
    mc=[("ElementwiseMC", "ElementwiseMC.cfg"), ("ElementwiseMC", "ElementwiseMC_complex.cfg")],
    mc_deep=[("ElementwiseMC", "ElementwiseMC_deep.cfg")],
    mc_actions=("DoLoad", "DoInto", "DoValue", "DoRefuse"),
    required=("Into", "Value", "Refuse"),
)

CHECKS["C24"] = dict(
    harness="elementfunctions",
    parts={n: ["VP_T=" + t] for n, t in [("f", "float"), ("d", "double"), ("cf", "cf"), ("cd", "cd")]}, shards=2,
    trace="ElementFunctionsTrace", selftest_key="mem", selftest_ops=("Into", "InPlace", "Value"), selftest_delta=40000,
    mc=[("ElementFunctionsMC", "ElementFunctionsMC.cfg")],
    mc_actions=("MInto", "MInPlace", "MValue"),
    gen=[dict(module="ElementFunctionsGen", mode="all", quick=0, deep=0,
              convert=lambda x: "%s %d %s" % (x["f"], x["real"], " ".join(str(p) for p in x["points"])))],
    required=("Into", "InPlace", "Value"),
)

CHECKS["C04"] = dict(
    harness="statistics",
    parts={n: ["VP_T=" + t, "VP_U=" + u] for n, t, u in [
        ("f", "float", "float"), ("d", "double", "double"), ("i", "int", "int"), ("cf", "cf", "cf"), ("cd", "cd", "cd"),
        ("fcf", "float", "cf"), ("cff", "cf", "float"), ("cdd", "cd", "double")]},
    trace="StatisticsTrace", selftest_key="res", selftest_ops=("Reduce",),
    mc=[("StatisticsMC", "StatisticsMC.cfg"), ("BigMC", "BigMC.cfg")],
    mc_deep=[("StatisticsMC", "StatisticsMC_deep.cfg")],
    mc_actions=("MLoad", "MLoadC", "MSum", "MDot"),
    required=("Load", "Reduce", "Mean", "Stat", "Kept"),
)

CHECKS["C11"] = dict(
    harness="polyphase",
    parts={"f": ["VP_T=float"], "d": ["VP_T=double"]}, shards=3,
    trace="PolyphaseTrace", selftest_key="post", selftest_ops=("Into",),
    mc=[("PolyphaseMC", "PolyphaseMC.cfg")], mc_deep=[("PolyphaseMC", "PolyphaseMC_deep.cfg")],
    mc_actions=("MDecompose", "MOther", "MCopy", "MMove", "MNormalize", "MNormalizeCopy", "MWrite"),
    gen=[dict(module="PolyphaseGen", quick=800, deep=8000, depth=18, convert=steps)],
    required=("Default", "Construct", "Decompose", "Copy", "Move", "Normalize", "NormalizeCopy", "Write", "Fill", "Into"),
)

CHECKS["C12"] = dict(
    harness="interpolation",
    parts={n: ["VP_T=" + t, "VP_P=" + p] for n, t, p in [
        ("f", "float", "float"), ("d", "double", "double"), ("cf", "cf", "float"), ("cd", "cd", "double"), ("fd", "float", "double")]},
    trace="InterpolationTrace", selftest_key="y", selftest_ops=("Run", "Window", "Expand", "Decimate"),
    mc=[("InterpolationMC", "InterpolationMC.cfg")], mc_deep=[("InterpolationMC", "InterpolationMC_deep.cfg")],
    mc_actions=("MBegin", "MRun"),
    gen=[dict(module="InterpolationGen", quick=500, deep=6000, depth=12,
              convert=lambda x: "%d %d %d %s" % (x["lx"], x["lh"], x["n"], " ".join(str(v) for v in flat(x["plan"]))))],
    required=("Stream", "Run", "Window", "Expand", "Decimate", "Length", "Guard"),
)

CHECKS["C13"] = dict(
    harness="resampling",
    parts={n: ["VP_T=" + t, "VP_P=" + p] for n, t, p in [
        ("f", "float", "float"), ("d", "double", "double"), ("cf", "cf", "float"), ("cd", "cd", "double")]},
    trace="ResamplingTrace", selftest_key="y", selftest_ops=("Run", "Window", "Full", "Central"), selftest_delta=5,
    mc=[("ResamplingMC", "ResamplingMC.cfg")], mc_deep=[("ResamplingMC", "ResamplingMC_deep.cfg")],
    mc_actions=("MStream", "MRun"),
    gen=[dict(module="ResamplingGen", quick=400, deep=5000, depth=12, convert=as_line())],
    required=("Stream", "Run", "Window", "Full", "Central", "Length", "Guard"),
)

CHECKS["C16"] = dict(
    harness="intervals",
    parts={n: ["VP_T=" + t] for n, t in [("i", "int"), ("l", "long"), ("d", "double"), ("z", "size_t")]},
    trace="IntervalsTrace", selftest_key="post", selftest_ops=("Shift", "Back"),
    mc=[("IntervalsMC", "IntervalsMC.cfg")], mc_deep=[("IntervalsMC", "IntervalsMC_deep.cfg")],
    mc_actions=("MLoad", "MShift"),
    required=("Pair", "Load", "Shift", "Back"),
)

CHECKS["C15"] = dict(
    harness="rationals",
    parts={n: ["VP_T=" + t] for n, t in [("i", "int"), ("l", "int64_t")]}, shards=4,
    trace="RationalsTrace", selftest_key="post", selftest_ops=("Set", "Binary", "Compound", "Step"),
    mc=[("RationalsMC", "RationalsMC.cfg")], mc_deep=[("RationalsMC", "RationalsMC_deep.cfg")],
    mc_actions=("MOp", "MStep"),
    gen=[dict(module="RationalsGen", quick=600, deep=8000, depth=26, convert=steps)],
    required=("Set", "Binary", "Compound", "Step", "Compare", "Parts", "Value", "Large"),
)

CHECKS["C14"] = dict(
    harness="windowing",
    parts={n: ["VP_T=" + t] for n, t in [("f", "float"), ("d", "double"), ("cf", "cf"), ("cd", "cd")]}, shards=3,
    trace="WindowsTrace", selftest_key="mem", selftest_ops=("Generate",), selftest_delta=20000,
    mc=[("WindowsMC", "WindowsMC.cfg"), ("FixedMC", "FixedMC.cfg")], mc_deep=[("WindowsMC", "WindowsMC_deep.cfg")],
    mc_actions=("MWindow", "MInto", "MArgument"),
    required=("Reserve", "Generate", "Gain"),
)

CHECKS["C17"] = dict(
    harness="fourier",
    parts={n: ["VP_T=" + t] for n, t in [("f", "float"), ("d", "double"), ("cf", "cf"), ("cd", "cd")]}, shards=4,
    trace="FourierTrace", selftest_key=None, selftest_ops=("Forward", "Shift"), selftest_delta=5000,
    mc=[("FourierMC", "FourierMC.cfg"), ("FixedMC", "FixedMC.cfg")], mc_deep=[("FourierMC", "FourierMC_deep.cfg")],
    mc_actions=("MGrow", "MSparse", "MForward", "MShift", "MUnshift"),
    required=("Forward", "Backward", "Shift", "Bin", "Nearest"),
)

CHECKS["C21"] = dict(
    harness="waves",
    parts={n: ["VP_T=" + t] for n, t in [("f", "float"), ("d", "double"), ("cf", "cf"), ("cd", "cd")]}, shards=4,
    trace="WavesTrace", selftest_key="mem", selftest_ops=("Tone", "Chirp"), selftest_delta=3000,
    mc=[("WavesMC", "WavesMC.cfg"), ("FixedMC", "FixedMC.cfg")], mc_deep=[("WavesMC", "WavesMC_deep.cfg")],
    mc_actions=("MSample", "MReserve", "MWrite", "MArgument"),
    required=("Tone", "Chirp", "Lin", "Log", "Powers"),
)

CHECKS["C19"] = dict(
    harness="responses",
    parts={n: ["VP_T=" + t] for n, t in [("f", "float"), ("d", "double"), ("cf", "cf"), ("cd", "cd")]}, shards=3,
    trace="ResponsesTrace", selftest_key="mem", selftest_ops=("Transform",), selftest_delta=100000,
    mc=[("ResponsesMC", "ResponsesMC.cfg"), ("FixedMC", "FixedMC.cfg")], mc_deep=[("ResponsesMC", "ResponsesMC_deep.cfg")],
    mc_actions=("MTap", "MFill", "MTransform", "MArgument"),
    required=("Fill", "Transform", "Refuse"),
)

CHECKS["C20"] = dict(
    harness="measurement",
    parts={n: ["VP_T=" + t] for n, t in [("f", "float"), ("d", "double")]}, shards=4,
    trace="MeasurementTrace", selftest_key="got", selftest_ops=("Measure",), selftest_delta=1000000,
    mc=[("MeasurementMC", "MeasurementMC.cfg"), ("FixedMC", "FixedMC.cfg")], mc_deep=[("MeasurementMC", "MeasurementMC_deep.cfg")],
    mc_actions=("MSample", "MShape", "MArgument"),
    required=("Samples", "Shape", "Measure", "Response"),
)

CHECKS["C23"] = dict(
    harness="firdesign",
    parts={n: ["VP_T=" + t] for n, t in [("f", "float"), ("d", "double")]}, shards=4,
    trace="FirDesignTrace", selftest_key="mem", selftest_ops=("Design",), selftest_delta=100000,
    mc=[("FirDesignMC", "FirDesignMC.cfg")], mc_deep=[("FirDesignMC", "FirDesignMC_deep.cfg")], mc_plain=True,
    mc_actions=tuple("windowed_" + t for t in ("lowpass", "highpass", "bandpass", "bandstop", "arbitrary", "hilbert", "halfband"))
    + tuple("leastSquares_" + t for t in ("lowpass", "highpass", "arbitrary")),
    gen=[dict(module="FirDesignGen", quick=400, deep=4000, depth=40, convert=steps)],
    required=("Reserve", "Design", "Refuse"),
)

CHECKS["C22"] = dict(
    harness="iirdesign",
    parts={n: ["VP_T=" + t] for n, t in [("f", "float"), ("d", "double")]}, shards=4,
    trace="IirDesignTrace", selftest_key="f", selftest_ops=("Design",), selftest_delta=100000000,
    mc=[("IirDesignMC", "IirDesignMC.cfg")], mc_deep=[("IirDesignMC", "IirDesignMC_deep.cfg")], mc_plain=True,
    mc_actions=tuple(m + "_" + t for m in ("butterworth", "chebyshev1", "chebyshev2", "elliptic") for t in ("lowpass", "highpass", "bandpass", "bandstop")),
    gen=[dict(module="IirDesignGen", quick=200, deep=2500, depth=40, convert=steps)],
    required=("Design", "Refuse"),
)

CHECKS["C18"] = dict(
    harness="descriptions",
    parts={"%s%d" % (n, k): ["VP_T=" + t, "VP_PART=%d" % k] for n, t in [("f", "float"), ("d", "double")] for k in range(3)},
    trace="DescriptionsTrace", selftest_key="desc", selftest_ops=("Put",), selftest_delta=1000,
    mc=[("DescriptionsMC", "DescriptionsMC.cfg")], mc_deep=[("DescriptionsMC", "DescriptionsMC_deep.cfg")],
    mc_actions=("MStart", "MPut"),
    gen=[dict(module="DescriptionsGen", quick=2500, deep=20000, depth=12, convert=steps)],
    required=("Start", "Put", "Design", "Normalized"),
)

CHECKS["C27"] = dict(
    harness="calls",
    parts={n: ["VP_T=" + t] for n, t in [("f", "float"), ("d", "double")]}, shards=2,
    flags=[("t", ["-O1", "-fsanitize=thread"]), ("q", ["-O1", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS"])],
    flags_deep=[("t", ["-O1", "-fsanitize=thread"]), ("q", ["-O1", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS"]), ("o", ["-O2"])],
    trace="CallsTrace", selftest_key="res", selftest_ops=("Finish",), selftest_delta=100000,
    mc=[("CallsMC", "CallsMC.cfg")], mc_deep=[("CallsMC", "CallsMC_deep.cfg")],
    mc_actions=("Ask", "Look", "Make", "Store", "Use"),
    gen=[dict(module="CallsGen", quick=300, deep=3000, depth=20, convert=steps)],
    required=("Alone", "Start", "Finish", "End"),
)

CHECKS["C25"] = dict(
    harness="elliptic",
    parts={n: ["VP_T=" + t] for n, t in [("f", "float"), ("d", "double")]}, shards=3,
    trace="EllipticTrace", selftest_key="v", selftest_ops=("Evaluate",), selftest_delta=100000000,
    mc=[("EllipticMC", "EllipticMC.cfg")], mc_deep=[("EllipticMC", "EllipticMC_deep.cfg")],
    mc_actions=("MModulus", "MArgument", "MSecond", "MEvaluate"),
    gen=[dict(module="EllipticGen", quick=400, deep=4000, depth=40, convert=steps)],
    required=("Modulus", "Integral", "Carlson", "Diverges", "Evaluate", "Reciprocal", "Complex", "ReciprocalComplex", "Invert", "InvertComplex"),
)

CHECKS["C26"] = dict(
    harness="solvers",
    parts={n: ["VP_T=" + t] for n, t in [("f", "float"), ("d", "double")]}, shards=2,
    trace="SolversTrace", selftest_key="v", selftest_ops=("Newton",), selftest_delta=100000000,
    mc=[("SolversMC", "SolversMC.cfg")], mc_deep=[("SolversMC", "SolversMC_deep.cfg")],
    mc_actions=("MFunction", "MBracket", "MHalve", "MPoint", "MNewton"),
    gen=[dict(module="SolversGen", quick=800, deep=8000, depth=40, convert=steps)],
    required=("Function", "Bisect", "Newton"),
)
