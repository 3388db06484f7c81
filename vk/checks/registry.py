from . import boot, cmdline, errsum, evset, faults, helptext, mapper, matching, matchval, metrics, readers, runs, show, values

CHECKS = {
    "C01": matching.check_c01,
    "C02": matching.check_c02,
    "C03": values.check_c03,
    "C04": runs.check_c04,
    "C05": metrics.check_c05,
    "C06": metrics.check_c06,
    "C07": metrics.check_c07,
    "C08": metrics.check_c08,
    "C09": runs.check_c09,
    "C10": boot.check,
    "C11": readers.check_c11,
    "C12": values.check_c12,
    "C13": evset.check,
    "C14": mapper.check,
    "C15": cmdline.check,
    "C16": metrics.check_c16,
    "C17": faults.check,
    "C18": runs.check_c18,
    "C19": matchval.check,
    "C20": runs.check_c20,
    "C21": metrics.check_c21,
    "C22": runs.check_c22,
    "C23": helptext.check,
    "C24": runs.check_c24,
    "C25": show.check,
    "C26": errsum.check,
}

MODULES = {
    "C26": "ErrorSum, ErrorSumGen, ErrorSumTrace",
    "C25": "NumberText, ShowText, ShowGen, ShowTrace",
    "C24": "TextFiles, Diagnostics, DiagTrace",
    "C23": "HelpText, HelpGen, HelpTrace, CommandLine",
    "C01": "Matching, MatchingGen, AccountTrace",
    "C02": "Matching, MatchingGen, KwsEval, MatchTrace, ToolTrace",
    "C03": "BigNat, Geometry, GeometryGen, GeometryTrace",
    "C12": "Events, Orders, OrderGen, OrderTrace",
    "C14": "MapperSpec, MapperHandles, MapperGen, MapperHandlesGen, MapperTrace",
    "C04": "Ranking, RankGen, RankTrace, RunTrace",
    "C09": "KwsEval, TextFiles, RunTrace, ToolTrace",
    "C10": "Bootstrap, BootstrapGen, BootstrapTrace, BootExactTrace, Metrics",
    "C11": "TextFiles, NumberText, ReaderSpec, ReaderGen, ReaderTrace",
    "C17": "ToolRun, ToolRunGen, ToolRunTrace",
    "C18": "RunTrace, ReaderSpec, ReuseModel, ReuseTrace",
    "C19": "MatchValue, MatchValueGen, MatchValueTrace",
    "C20": "KwsEval, Metrics, TextFiles, LabelTrace, Replication, RunTrace",
    "C22": "RunTrace",
    "C05": "Numeric, Metrics, MetricsGen, CurveTrace",
    "C06": "Numeric, Metrics, MetricsGen, CurveTrace, ReportTrace",
    "C07": "Numeric, Metrics, MetricsGen, CurveTrace, ReportTrace",
    "C08": "Numeric, Metrics, MetricsGen, TextFiles, ReportTrace",
    "C15": "NumberText, CommandLine, CommandLineGen, CommandLineTrace",
    "C16": "Numeric, Metrics, MetricsGen, TextFiles, ReportTrace",
    "C21": "Metrics, MetricsGen, CurveTrace",
    "C13": "EventSetSpec, EventIndex, EventSetGen, EventSetTrace, EventSetBigTrace, EventSetManyTrace",
}
