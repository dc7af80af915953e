"""Build and budget of every check. quick/thorough: (number of cases, time cap in seconds)."""
S = ["baf", "spl"]
IO = ["baf", "spl", "io"]
CHECKS = {
    "C01": dict(harness=["c01.cc"], sources=S, quick=(60000, 150), thorough=(3000000, 600)),
    "C02": dict(harness=["c02.cc"], sources=S, quick=(60000, 150), thorough=(3000000, 600)),
    "C03": dict(harness=["c03.cc"], sources=S, quick=(25000, 150), thorough=(3000000, 600)),
    "C04": dict(harness=["c04.cc"], sources=S, quick=(20000, 150), thorough=(3000000, 600)),
    "C05": dict(harness=["c05.cc"], sources=S, quick=(150000, 150), thorough=(3000000, 600)),
    "C06": dict(harness=["c06.cc"], sources=S, quick=(20000, 150), thorough=(3000000, 600)),
    "C07": dict(harness=["c07.cc"], sources=S, quick=(40000, 150), thorough=(3000000, 600)),
    "C08": dict(harness=["c08.cc"], sources=S, quick=(10000, 150), thorough=(3000000, 600)),
    "C09": dict(harness=["c09.cc"], sources=S, quick=(8000, 150), thorough=(3000000, 600)),
    "C10": dict(harness=["c10.cc"], sources=S, quick=(20000, 150), thorough=(3000000, 600)),
    "C11": dict(harness=["c11.cc"], sources=S, quick=(20000, 150), thorough=(3000000, 600)),
    "C12": dict(harness=["c12.cc"], sources=IO, quick=(12000, 150), thorough=(3000000, 600)),
    "C13": dict(harness=["c13.cc"], sources=S, quick=(20000, 150), thorough=(3000000, 600)),
    "C14": dict(harness=["c14.cc"], sources=IO, quick=(20000, 150), thorough=(3000000, 600)),
    "C15": dict(harness=["c15.cc"], sources=IO, quick=(40000, 150), thorough=(3000000, 600)),
    "C16": dict(harness=["c16.cc"], sources=IO, quick=(30000, 150), thorough=(3000000, 600)),
    "C17": dict(harness=["c17.cc"], sources=IO, quick=(10000, 150), thorough=(3000000, 600)),
    "C18": dict(harness=["c18.cc"], sources=IO, quick=(10000, 150), thorough=(3000000, 600)),
    "C19": dict(harness=["c19.cc"], sources=IO, quick=(40000, 150), thorough=(5000000, 600)),
    "C20": dict(harness=["c20.cc"], sources=S, quick=(2000000, 150), thorough=(20000000, 600)),
    "C25": dict(harness=["c25.cc"], sources=S, quick=(1500000, 150), thorough=(10000000, 600)),
    "C27": dict(harness=["c27.cc"], sources=S, quick=(500000, 150), thorough=(10000000, 600)),
    "C28": dict(harness=["c28.cc"], sources=S, quick=(100000, 150), thorough=(5000000, 600)),
    "C30": dict(harness=["c30.cc"], sources=S, quick=(600000, 150), thorough=(10000000, 600)),
    "C22": dict(harness=["c22.cc"], sources=S, quick=(14000, 150), thorough=(3000000, 600)),
    "C23": dict(harness=["c23.cc"], sources=S, quick=(18000, 150), thorough=(3000000, 600)),
    "C24": dict(harness=["c24.cc"], sources=S, quick=(8000, 150), thorough=(1000000, 600)),
    "C21": dict(harness=["c21.cc"], sources=S, opt="-O2", quick=(7000, 150), thorough=(1000000, 600)),
    "C26": dict(harness=["c26.cc"], sources=IO + ["log"], programs=["src/io/executables/*_to_*.cc"],
                inc=["src/io/executables"], quick=(6000, 150), thorough=(500000, 600)),
    "C29": dict(harness=["c29.cc"], sources=IO, inc=["example/iga/src", "example/iga/src/itg"], libs=["-larmadillo"],
                san="", opt="-O2", env={"OPENBLAS_NUM_THREADS": "1"}, quick=(3000, 150), thorough=(300000, 600)),
}
