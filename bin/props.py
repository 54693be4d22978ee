"""Which models and which traces decide each property."""
PROPS = {
    "C01": dict(
        mc=[dict(module="PageFileMC", cfg="PageFileMC.cfg"), dict(module="PageRing", cfg="PageRing.cfg")],
        traces=[dict(driver="pagefile", spec="PageFileTrace")],
    ),
    "C02": dict(
        traces=[dict(driver="mmap", spec="MMapTrace",
                     gen=dict(module="MMapMC", quick="MMapMC.cfg", thorough="MMapMCT.cfg"))],
    ),
}
PROPS.update({
    "C03": dict(
        mc=[dict(module="BPTreeImpl", quick="BPTreeImpl.cfg", thorough="BPTreeImplT.cfg"),
            dict(module="BPTreeImpl", cfg="BPTreeImpl3.cfg")],
        traces=[dict(driver="bptree", spec="BPTreeTrace")],
    ),
    "C04": dict(
        mc=[dict(module="IterImpl", quick="IterImpl.cfg", thorough="IterImplT.cfg", workers=4)],
        traces=[dict(driver="iter", spec="IterTrace")],
    ),
})
PROPS.update({
    "C07": dict(
        mc=[dict(module="MetaListImpl", cfg="MetaListImpl.cfg")],
        traces=[dict(driver="metalist", spec="MetaListTrace")],
    ),
})
PROPS.update({
    "C06": dict(
        mc=[dict(module="BPTreeImpl", quick="BPTreeImpl.cfg", thorough="BPTreeImplT.cfg"),
            dict(module="BPTreeImpl", cfg="BPTreeImpl3.cfg")],
        traces=[dict(driver="btree", spec="VecTrace")],
    ),
})
PROPS["C07"]["mc"] = [dict(module="MetaListImpl", quick="MetaListImpl.cfg", thorough="MetaListImplT.cfg", workers=4)]
PROPS.update({
    "C05": dict(
        mc=[dict(module="Faults", cfg="Faults.cfg")],
        traces=[dict(driver="faults", spec="FaultTrace")],
    ),
})
PROPS.update({
    "C08": dict(
        mc=[dict(module="CatalogueMC", quick="CatalogueMC.cfg", thorough="CatalogueMCT.cfg", workers=4)],
        traces=[dict(driver="catalogue", spec="CatalogueTrace")],
    ),
})
PROPS.update({
    "C09": dict(
        traces=[dict(driver="jsonl", spec="JSONLTrace")],
    ),
    "C13": dict(
        traces=[dict(driver="loc", spec="LocTrace")],
    ),
})
SYG = dict(module="SyncGen", quick="SyncGen.cfg", thorough="SyncGenT.cfg")
SYNC = [dict(module="Sync", quick="Sync.cfg", thorough="SyncT.cfg")]
PROPS["C09"]["mc"] = SYNC
PROPS["C13"]["mc"] = SYNC
PROPS.update({
    "C10": dict(mc=SYNC, traces=[dict(driver="incr", spec="IncrTrace")]),
    "C11": dict(mc=SYNC, traces=[dict(driver="reject", spec="RejectTrace")]),
    "C12": dict(mc=SYNC, traces=[dict(driver="crash", spec="CrashTrace"), dict(driver="hist", spec="HistTrace", gen=SYG),
                               dict(driver="histcsv", spec="HistTrace", gen=SYG)]),
})
PROPS.update({
    "C17": dict(
        mc=[dict(module="DistHeapImpl", quick="DistHeapImpl.cfg", thorough="DistHeapImplT.cfg", workers=3)],
        traces=[dict(driver="distheap", spec="DistHeapTrace",
                     gen=dict(module="DistHeapImpl", quick="DistHeapGen.cfg", thorough="DistHeapGenT.cfg"))],
    ),
})
HN = [dict(module="HnswImpl", quick="HnswImpl.cfg", thorough="HnswImplT.cfg", workers=4),
      dict(module="HnswImpl", cfg="HnswImplX.cfg")]
PROPS.update({
    "C18": dict(mc=HN, traces=[dict(driver="hnsw", spec="HnswTrace")]),
    "C19": dict(mc=HN, traces=[dict(driver="knn", spec="KnnTrace")]),
    "C20": dict(mc=HN, traces=[dict(driver="vpage", spec="VPageTrace")]),
})
PROPS.update({
    "C21": dict(
        mc=[dict(module="QueryImpl", quick="QueryImpl.cfg", thorough="QueryImplT.cfg", workers=3)],
        traces=[dict(driver="query", spec="QueryTrace", lang="ts", reps=3),
                dict(driver="query", spec="QueryTrace", lang="ts",
                     gen=dict(module="QueryImpl", quick="QueryGen.cfg", thorough="QueryGenT.cfg"))],
    ),
})
PROPS.update({
    "C22": dict(
        mc=[dict(module="SearchImpl", quick="SearchImpl.cfg", thorough="SearchImplT.cfg", workers=4)],
        traces=[dict(driver="search", spec="SearchTrace", lang="ts"),
                dict(driver="search", spec="SearchTrace", lang="ts",
                     gen=dict(module="SearchImpl", quick="SearchGen.cfg", thorough="SearchGenT.cfg"))],
    ),
})
PROPS.update({
    "C23": dict(
        mc=[dict(module="MultipartImpl", quick="MultipartImpl.cfg", thorough="MultipartImplT.cfg", workers=4)],
        traces=[dict(driver="ranges", spec="MultipartTrace", lang="ts"),
                dict(driver="rangecache", spec="ClientTrace", lang="ts", reps=2),
                dict(driver="multipart", spec="MultipartTrace", lang="ts"),
                dict(driver="multipart", spec="MultipartTrace", lang="ts",
                     gen=dict(module="MultipartImpl", quick="MultipartGen.cfg", thorough="MultipartGenT.cfg"))],
    ),
})
PROPS.update({
    "C24": dict(
        mc=[dict(module="IterImpl", quick="IterImpl.cfg", thorough="IterImplT.cfg"),
            dict(module="Varint", cfg="Varint.cfg", quick="Varint.cfg", thorough="Varint.cfg")],
        traces=[dict(driver="interop", spec="InteropTrace", lang="ts")],
    ),
})
PROPS.update({
    "C25": dict(
        mc=[dict(module="ClientImpl", quick="ClientImpl.cfg", thorough="ClientImplT.cfg")],
        traces=[dict(driver="client", spec="ClientTrace", lang="ts"),
                dict(driver="client", spec="ClientTrace", lang="ts",
                     gen=dict(module="ClientImpl", quick="ClientGen.cfg", thorough="ClientGenT.cfg")),
                dict(driver="rangecache", spec="ClientTrace", lang="ts"),
                dict(driver="rangecache", spec="ClientTrace", lang="ts",
                     gen=dict(module="ClientImpl", quick="ClientGen.cfg", thorough="ClientGenT.cfg"))],
    ),
})
BPI = dict(module="BPTreeImpl", quick="BPTreeImpl.cfg", thorough="BPTreeImplT.cfg")
PROPS["C12"]["mc"] = SYNC + [BPI]
PROPS.update({
    "C15": dict(
        mc=SYNC + [BPI],
        needs=["cli"],
        traces=[dict(driver="cli", spec="CliTrace", reps=4), dict(driver="clifull", spec="FullTrace", reps=3), dict(driver="clicsv", spec="CSVTrace")],
    ),
})
NGG = dict(module="NGramImpl", quick="NGramGen.cfg", thorough="NGramGenT.cfg")
PROPS.update({
    "C16": dict(
        mc=[dict(module="NGramImpl", quick="NGramImpl.cfg", thorough="NGramImplT.cfg", workers=4)],
        traces=[dict(driver="ngram", spec="NGramTrace"), dict(driver="ngram", spec="NGramTrace", gen=NGG),
                dict(driver="ngram", spec="NGramTrace", lang="ts"),
                dict(driver="ngram", spec="NGramTrace", lang="ts", gen=NGG)],
    ),
})
PROPS.update({
    "C14": dict(
        mc=SYNC + [dict(module="CSVImpl", quick="CSVImpl.cfg", thorough="CSVImplT.cfg", workers=4)],
        traces=[dict(driver="csv", spec="CSVTrace"), dict(driver="histcsv", spec="HistTrace", gen=SYG),
                dict(driver="csv", spec="CSVTrace", gen=dict(module="CSVImpl", quick="CSVGen.cfg", thorough="CSVGenT.cfg"))],
    ),
})
PROPS.update({
    "C26": dict(
        mc=[dict(module="J2JImpl", quick="J2JImpl.cfg", thorough="J2JImplT.cfg", workers=3)],
        needs=["rust"],
        traces=[dict(driver="j2j", spec="J2JTrace", reps=3),
                dict(driver="j2j", spec="J2JTrace", gen=dict(module="J2JImpl", quick="J2JGen.cfg", thorough="J2JGen.cfg"))],
    ),
})
PROPS.update({
    "C27": dict(
        traces=[dict(driver="format", spec="FormatTrace"),
                dict(driver="format", spec="FormatTrace",
                     gen=dict(module="FormatGen", quick="FormatGen.cfg", thorough="FormatGenT.cfg"))],
    ),
})
CODG = dict(module="CodecMC", quick="CodecMC.cfg", thorough="CodecMCT.cfg")
PROPS.update({
    "C28": dict(
        traces=[dict(driver="codec", spec="CodecTrace"), dict(driver="codec", spec="CodecTrace", gen=CODG),
                dict(driver="codec", spec="CodecTrace", lang="ts"),
                dict(driver="codec", spec="CodecTrace", lang="ts", gen=CODG)],
    ),
})
for _p, _d in [("C09", "bulkjsonl"), ("C10", "bulkjsonl"), ("C12", "bulkkill"), ("C11", "bulkjsonl"), ("C13", "bulkloc"), ("C14", "bulkcsv")]:
    PROPS[_p]["traces"].append(dict(driver=_d, spec="BulkTrace"))
