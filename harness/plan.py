"""Which binaries exist and which jobs decide which property."""
import os

THOROUGH_FACTOR = 20


def core(features):
    def build(dest, cargo, root, _build, _err):
        cargo(os.path.join(root, "harness/core/Cargo.toml"), features, "core_check", dest)
    return build


def virt(features):
    def build(dest, cargo, root, _build, _err):
        # (The sources of fyi_msg are a path dependency of their own there.)
        cargo(os.path.join(root, "harness/virt/Cargo.toml"), features, "virt_check", dest)
    return build


def real(features):
    def build(dest, cargo, root, _build, _err):
        cargo(os.path.join(root, "harness/real/Cargo.toml"), features, "real_check", dest)
    return build


def cli(dest, cargo, root, _build, _err):
    cargo(os.path.join(root, "harness/cli/Cargo.toml"), "", "cli_check", dest)


def fyi(dest, cargo, _root, _build, _err):
    """The program itself, the way the repository builds it."""
    cargo("/repo/Cargo.toml", "", "fyi", dest, extra=("-p", "fyi", "--config", PATCH))


def macros(dest, cargo, root, _build, _err):
    cargo(os.path.join(root, "harness/macros/Cargo.toml"), "", "macros_check", dest)


def ansi(dest, cargo, _root, _build, _err):
    cargo("/repo/Cargo.toml", "", "libfyi_ansi.rlib", dest, extra=("-p", "fyi_ansi", "--config", PATCH))


# fyi_msg asks crates.io for fyi_ansi; use the one in /repo instead.
PATCH = 'patch.crates-io.fyi_ansi.path="/repo/fyi_ansi"'

BINARIES = {
    "cli": cli,
    "fyi": fyi,
    "macros": macros,
    "libfyi_ansi.rlib": ansi,
    "virt": virt(""),
    "virt-winch": virt("winch"),
    "virt-sig": virt("sig"),
    "virt-sigs": virt("sig,winch"),
    "real": real(""),
    "real-winch": real("winch"),
    "real-sig": real("sig"),
    "real-sigs": real("sig,winch"),
    "core-min": core(""),
    "core-ts": core("timestamps"),
    "core-fit": core("fitted"),
    "core-prog": core("progress,bin_kinds"),
    "core-all": core("signals,timestamps,bin_kinds"),
}


def zones():
    """All installed time zones, in a stable order."""
    out = []
    base = "/usr/share/zoneinfo"
    for d, sub, files in os.walk(base):
        sub[:] = sorted(s for s in sub if s not in ("right", "posix"))
        for f in sorted(files):
            p = os.path.join(d, f)
            if "." not in f and open(p, "rb").read(4) == b"TZif":
                out.append(p)
    return sorted(out)


def zone_env(k, seed):
    z = zones()
    # Stride through the list so that each run sees a spread of regions.
    return {"FAKE_LOCALTIME": z[(seed * 37 + k * 61) % len(z)]}


def J(bin, name, cases, **kw):
    return dict(bin=bin, name=name, cases=cases, **kw)


def V(name, cases, **kw):
    return J("virt", name, cases, **kw)


def C(name, cases, **kw):
    return J("cli", name, cases, env={"FYI_BIN": "@BUILD@/bin/fyi"}, **kw)


def R(bin, name, cases):
    """Real processes: they mostly wait, so many can go on at once."""
    return J(bin, name, cases, shards=24, light=True, thorough=cases * 10)


PROPS = {
    "C01": dict(jobs=[J("core-min", "C01", 120_000, shards=4), J("core-ts", "C01", 120_000, shards=4), J("core-all", "C01", 480_000)]),
    "C02": dict(jobs=[J("core-min", "C02", 400_000), J("core-all", "C02", 400_000)]),
    "C03": dict(jobs=[J("core-min", "C03", 300_000), J("core-all", "C03", 500_000)]),
    "C04": dict(jobs=[J("core-min", "C04", 300_000), J("core-all", "C04", 700_000)]),
    "C05": dict(jobs=[J("core-ts", "C05", 480_000, shards=64, shard_env=zone_env)]),
    "C06": dict(jobs=[J("core-all", "C06", 1_000_000)]),
    "C07": dict(jobs=[V("C07", 300_000)]),
    "C08": dict(jobs=[V("C08", 600_000)]),
    "C09": dict(jobs=[J("core-fit", "C09", 700_000)]),
    "C10": dict(jobs=[J("core-fit", "C10", 1_000_000)]),
    "C11": dict(jobs=[J("core-fit", "C11", 400_000), J("core-all", "C11", 400_000)]),
    "C12": dict(jobs=[J("core-min", "C12", 600_000)]),
    "C13": dict(jobs=[J("macros", "C13", 320, case_timeout=240, memory=0, env={"FYI_ANSI": "@BUILD@/bin/libfyi_ansi.rlib"})], needs=["libfyi_ansi.rlib"]),
    "C14": dict(jobs=[C("C14", 40_000)], needs=["fyi"]),
    "C15": dict(jobs=[C("C15", 40_000)], needs=["fyi"]),
    "C16": dict(jobs=[C("C16", 40_000)], needs=["fyi"]),
    "C17": dict(jobs=[V("C17", 600_000)]),
    "C18": dict(jobs=[V("C18", 400_000), V("C18crowd", 200_000)]),
    "C19": dict(jobs=[V("C19", 400_000), V("C19crowd", 200_000)]),
    "C20": dict(jobs=[V("C20", 300_000), J("virt-winch", "C20", 200_000)]),
    "C21": dict(jobs=[V("C21", 300_000), J("virt-winch", "C21", 200_000), R("real", "R21", 480)]),
    "C22": dict(jobs=[V("C22", 300_000), J("virt-winch", "C22", 200_000)]),
    "C23": dict(jobs=[V("C23", 300_000), J("virt-winch", "C23", 200_000), R("real-winch", "R23", 480)]),
    "C24": dict(jobs=[V("C24", 300_000), J("virt-winch", "C24", 200_000), R("real", "R23", 240), R("real-sigs", "R24", 240)]),
    "C25": dict(jobs=[V("C25", 400_000)]),
    "C26": dict(jobs=[V("C26", 400_000), V("C26crowd", 100_000)]),
    "C27": dict(jobs=[J("virt-sig", "C27", 40_000), J("virt-sigs", "C27", 40_000), R("real-sig", "R27", 360), R("real-sigs", "R27", 240)]),
    "C28": dict(jobs=[V("C28", 200_000), J("virt-winch", "C28", 200_000), R("real", "R28", 240), R("real-winch", "R28", 240)]),
    "C29": dict(jobs=[V("C29", 400_000)]),
    "C30": dict(jobs=[V("C30", 300_000), J("virt-sig", "C30sig", 24_000), J("virt-sigs", "C30sig", 24_000)]),
}

TECHNIQUE = "property-based testing (proptest) against a reference model"
NOTE = "Random search over generated histories and inputs; trusts the reference model in /verif/harness. Shows absence of violations only on the explored cases."
NOTES = "Every check builds the code under test from /repo's working tree into /verif/build; no hooks in /repo are needed. VERIF_SEED fixes every random choice."
NOT_APPLICABLE = {}
