"""which specification modules, drivers and trace modules decide which property"""
DOMAINS = {
    "coll": dict(
        mc=[dict(module="CollMC")],
        gen=[dict(module="CollMC", cfg="CollGen.cfg", simulate=60, depth=15, cap=500), dict(module="CollMC", cfg="CollGen2.cfg", cap=400)],
        drivers=[dict(script="drv_coll", trace="CollTrace", shards=4)],
        canary={"add": ["items", "size"], "replace_at": ["fired", "items"], "remove_id": ["bypos", "fired"]},
    ),
    "sim": dict(
        mc=[dict(module="SimMC")],
        gen=[dict(module="SimMC", cfg="SimGen.cfg", simulate=60, depth=8, cap=240)],
        drivers=[dict(script="drv_sim", trace="SimTrace", shards=8)],
        first=("new",),
        canary={"step": ["conts", "stp", "dg"], "rewind": ["time"]},
    ),
    "map": dict(
        mc=[dict(module="LandMC", thorough_cfg="LandMCt.cfg"), dict(module="LandMC", cfg="LandEl.cfg", workers=3)],
        gen=[dict(module="LandMC", cfg="LandGen.cfg", cap=3000), dict(module="PushGen", simulate=200, depth=8, cap=400)],
        drivers=[dict(script="drv_map", trace="MapTrace", shards=6)],
        first=("case", "map", "bna", "refl"),
        canary={"case": ["hit"], "mstep": ["after", "mb"], "refl": ["k"]},
    ),
    "weather": dict(
        mc=[dict(module="WeatherMC", thorough_cfg="WeatherMCt.cfg", workers=4)],
        gen=[dict(module="WeatherMC", cfg="WeatherGen.cfg", simulate=160, depth=13, cap=400)],
        drivers=[dict(script="drv_wx", trace="WeatherTrace", shards=8)],
        first=("wcfg",),
        canary={"wstep": ["mb", "conts"]},
    ),
    "persist": dict(
        mc=[dict(module="PersistMC", thorough_cfg="PersistMCt.cfg", workers=4)],
        gen=[dict(module="PersistMC", cfg="PersistGen.cfg", simulate=120, depth=9, cap=120, thorough_factor=3, thorough_cap=1200)],
        drivers=[dict(script="drv_persist", trace="PersistTrace", shards=8)],
        first=("start", "rt"),
        canary={"rt": ["h1"], "upd": ["h1"]},
    ),
    "out": dict(
        mc=[dict(module="OutMC", thorough_cfg="OutMCt.cfg", workers=4)],
        gen=[dict(module="OutMC", cfg="OutGen.cfg", simulate=200, depth=9, cap=240, thorough_factor=8, thorough_cap=1600)],
        drivers=[dict(script="drv_out", trace="OutTrace", shards=8)],
        first=("ocfg",),
        canary={"files": ["files"], "ostep": ["conts"]},
    ),
    "cal": dict(
        mc=[dict(module="CalMC", workers=4)],
        gen=[dict(module="CalGen", simulate=1200, depth=15, cap=1200, thorough_factor=15, thorough_cap=18000)],
        drivers=[dict(script="drv_cal", trace="CalTrace", shards=6)],
        first=("zone",),
        canary={"conv": ["secs", "back"], "inf": ["min"], "tzoff": ["td", "iso"]},
    ),
    "geo": dict(
        mc=[dict(module="GeoMC", thorough_cfg="GeoMCt.cfg", workers=4)],
        gen=[dict(module="GeoGen", cfg="GeoGen_pip.cfg", simulate=250, depth=9, cap=250, thorough_factor=12, thorough_cap=3000),
             dict(module="GeoGen", cfg="GeoGen_set.cfg", simulate=250, depth=15, cap=250, thorough_factor=12, thorough_cap=3000),
             dict(module="GeoGen", cfg="GeoGen_box.cfg", simulate=200, depth=13, cap=200, thorough_factor=12, thorough_cap=3000)],
        drivers=[dict(script="drv_geo", trace="GeoTrace", shards=6)],
        first=("begin",),
        canary={"poly": ["box"], "box": ["box"], "mono": ["rev"]},
    ),
    "proj": dict(
        mc=[dict(module="ProjMC", thorough_cfg="ProjMCt.cfg", workers=4)],
        gen=[dict(module="ProjGen", simulate=400, depth=17, cap=400, thorough_factor=15, thorough_cap=6000)],
        drivers=[dict(script="drv_proj", trace="ProjTrace", shards=6)],
        first=("begin",),
        canary={"pix": ["ints"], "deg": ["mid"], "new": ["ibox"], "circle": ["res"], "met": ["back"]},
    ),
    "wind": dict(
        mc=[dict(module="SeriesMC", thorough_cfg="SeriesMCt.cfg", workers=4)],
        gen=[dict(module="SeriesGen", simulate=400, depth=17, cap=400, thorough_factor=15, thorough_cap=6000)],
        drivers=[dict(script="drv_wind", trace="SeriesTrace", shards=6)],
        first=("begin",),
        canary={"set": ["snap"], "ask": ["res"], "xf": ["uv"], "cur": ["res"], "tsd": ["res"]},
    ),
    "mov": dict(
        mc=[dict(module="MovMC", thorough_cfg="MovMCt.cfg", workers=4)],
        gen=[dict(module="MovGen", simulate=600, depth=19, cap=600, thorough_factor=12, thorough_cap=7000)],
        drivers=[dict(script="drv_mov", trace="MovTrace", shards=8)],
        first=("begin",),
        canary={"step": ["active", "same"], "warp": ["same"]},
    ),
    "birth": dict(
        mc=[dict(module="BirthMC", thorough_cfg="BirthMCt.cfg", workers=4)],
        gen=[dict(module="BirthGen", simulate=500, depth=15, cap=500, thorough_factor=10, thorough_cap=5000)],
        drivers=[dict(script="drv_birth", trace="BirthTrace", shards=8)],
        first=("begin",),
        canary={"rel": ["n", "z"], "oil": ["each", "boil"], "water": ["everywhere"]},
    ),
    "arc": dict(
        mc=[dict(module="ArcMC", thorough_cfg="ArcMCt.cfg", workers=4)],
        gen=[dict(module="ArcGen", simulate=500, depth=9, cap=500, thorough_factor=10, thorough_cap=5000)],
        drivers=[dict(script="drv_arc", trace="ArcTrace", shards=8)],
        first=("begin",),
        canary={"judge": ["valid", "same"], "extract": ["same"], "save": ["path", "kept"], "upgrade": ["cwd", "again"]},
    ),
    "laws": dict(
        mc=[dict(module="LawsMC", thorough_cfg="LawsMCt.cfg", workers=4)],
        gen=[dict(module="LawsGen", simulate=500, depth=19, cap=500, thorough_factor=10, thorough_cap=5000)],
        drivers=[dict(script="drv_laws", trace="LawsTrace", shards=8)],
        first=("begin", "nospill"),
        canary={"evap": ["mb"], "thin": ["lim"], "first": ["area"]},
    ),
}
PROPS = {
    "C01": dict(domains=["sim"]),
    "C02": dict(domains=["sim"]),
    "C03": dict(domains=["sim"]),
    "C04": dict(domains=["sim"]),
    "C05": dict(domains=["sim"]),
    "C06": dict(domains=["weather"]),
    "C07": dict(domains=["map"]),
    "C08": dict(domains=["map"]),
    "C09": dict(domains=["sim"]),
    "C10": dict(domains=["sim"]),
    "C11": dict(domains=["persist"]),
    "C12": dict(domains=["persist"]),
    "C13": dict(domains=["wind"]),
    "C14": dict(domains=["sim"]),
    "C15": dict(domains=["coll"]),
    "C16": dict(domains=["cal"]),
    "C17": dict(domains=["geo"]),
    "C18": dict(domains=["weather"]),
    "C19": dict(domains=["weather"]),
    "C20": dict(domains=["out"]),
    "C22": dict(domains=["proj"]),
    "C23": dict(domains=["mov"]),
    "C25": dict(domains=["arc"]),
    "C26": dict(domains=["laws"]),
    "C24": dict(domains=["birth"]),
    "C21": dict(domains=["out"]),
}
