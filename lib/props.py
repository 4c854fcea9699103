"""Which configurations and targets decide which property."""
from seqcheck import C, run_seq
from conccheck import CC, run_conc
from shapecheck import run_shapes
from itemcheck import run_items
from doublecheck import run_double
from expandcheck import run_expand
import targets as T

INST = [T.r_full, T.r_mixed, T.r_gens, T.r_autotrait, T.r_autostruct, T.r_genstruct, T.r_spec]

def c01(chk):
    run_seq(chk, [
        C("C01", "OneSlot", exp=3, len=6, lenb=7, tag="core"),
        C("C01b", "OneSlot", exp=3, len=6, tag="std"),
        C("C01c2", "C01cSlots2", exp=2, len=4, tag="multi"),
        C("C01c3", "C01cSlots3", exp=2, len=3, tag="multi"),
        C("C01s", "OneSlot", exp=8, len=40, sim=200, tag=""),
        C("C01l", "OneSlot", exp=90, len=220, sim=15, tag="", nb=12),
        C("C01x", "OneStatic", exp=2, len=6, objs=(), fns=("F",), tag="std"),
        C("C01xs", "OneStatic", exp=8, len=40, sim=150, objs=(), fns=("F",), tag="", pace=20),
    ], INST + [T.r_args, T.r_static])

def c02(chk):
    run_seq(chk, [
        C("C02", "OneSlot", exp=2, len=6, lenb=7, tag="std"),
        C("C02s", "OneSlot", exp=4, len=60, sim=200, tag="", pace=20),
        C("C02n", "OneSlot", exp=1, len=5, tag="std", nb=2),
        C("C02x", "OneStatic", exp=2, len=6, objs=(), fns=("F",), tag="std"),
    ], INST + [T.r_args, T.r_static])

def c03(chk):
    run_seq(chk, [
        C("C03", "TwoOfOne", exp=1, len=5, lenb=6, tag="core"),
        C("C03:2", "TwoOfOne", exp=2, len=5, tag="core", nb=10),
        C("C03b", "OneSlot", exp=3, len=6, tag="std"),
        C("C03q", "TwoOfOne", exp=2, len=5, lenb=6, nseq=2, tag="core", nb=8),
        C("C03y", "OneStatic", exp=2, len=7, nseq=1, objs=(), fns=("F",), tag="std", nb=8),
        C("C03s", "ThreeOfOne", exp=4, len=30, sim=40, tag="core", pace=8),
        C("C03n", "OneSlot", exp=1, len=5, tag="std", nb=3),
        C("C03nx", "OneStatic", exp=1, len=7, objs=(), fns=("F",), tag="std", nb=3),
        C("C03m", "MixSlots", exp=1, len=5, lenb=6, fns=("F",), tag="mix"),
        C("C03x", "OneStatic", exp=3, len=7, objs=(), fns=("F",), tag="std", nb=8),
    ], INST + [T.r_both, T.r_static])

def c04(chk):
    run_seq(chk, [
        C("C04", "TwoOfOne", exp=1, len=6, lenb=7, tag="core"),
        C("C04:2", "TwoOfOne", exp=2, len=5, tag="core"),
        C("C04q", "OneSlot", exp=2, len=6, lenb=7, nseq=1, tag="std"),
        C("C04s", "ThreeOfOne", exp=4, len=30, sim=40, tag="core", pace=8),
        C("C04m", "MixSlots", exp=1, len=6, lenb=7, fns=("F",), tag="mix"),
        C("C04x", "OneStatic", exp=2, len=7, nseq=1, objs=(), fns=("F",), tag="std", nb=8),
    ], INST + [T.r_both, T.r_static])

def c05(chk):
    run_seq(chk, [
        C("C05", "TwoObj", exp=2, len=6, lenb=7, nseq=1, objs=("o", "p"), tag="core", nb=6),
        C("C05b", "TwoOfOne", exp=2, len=7, nseq=2, tag="core", nb=6),
        C("C05c", "TwoOfOne", exp=2, len=5, lenb=7, nseq=1, tag="core", nb=6),
        C("C05d", "OneSlot", exp=3, len=4, nseq=1, tag="std"),
        C("C05h", "TwoObj", exp=2, len=6, lenb=7, nseq=1, objs=("o", "p"), tag="core", nb=6),
        C("C05s", "TwoObj", exp=5, len=40, sim=100, nseq=2, objs=("o", "p"), tag="core", pace=10),
        C("C05n", "TwoOfOne", exp=2, len=7, nseq=1, tag="core", nb=3),
        C("C05l", "TwoOfOne", exp=150, len=300, nseq=1, sim=8, tag="core", nb=8),
        C("C05x", "OneStatic", exp=3, len=7, nseq=2, objs=(), fns=("F",), tag="std", nb=4),
    ], INST + [T.r_static])

def c06(chk):
    run_seq(chk, [
        C("C06", "OneSlot", exp=1, len=6, lenb=7, tag="std"),
        C("C06h", "OneSlot", exp=1, len=4, nseq=1, tag="std"),
        C("C06s", "OneSlot", exp=3, len=30, sim=150, tag="std", pace=12),
        C("C06x", "OneStatic", exp=1, len=6, objs=(), fns=("F",), tag="std"),
    ], INST + [T.r_refs, T.r_static])

def c07(chk):
    run_seq(chk, [
        C("C07", "ValSlot", exp=2, len=5, lenb=6, tag=""),
        C("C07b", "ValSlot", exp=1, len=4, tag=""),
        C("C07q", "ValSlot", exp=2, len=5, lenb=6, nseq=1, tag="std"),
        C("C07s", "ValSlot", exp=5, len=30, sim=150, tag="", pace=10),
        C("C07x", "ValStatic", exp=2, len=6, objs=(), fns=("F",), tag=""),
    ], INST + [T.r_args, T.r_refs, T.r_static])

def c08(chk):
    run_seq(chk, [
        C("C08r", "RefSlot", exp=2, len=6, lenb=7, tag=""),
        C("C08m", "MutSlot", exp=2, len=5, lenb=6, tag=""),
        C("C08s", "TwoMut", exp=3, len=30, sim=150, objs=("o", "p"), tag="", pace=10),
    ], INST + [T.r_args, T.r_refs])

def c09(chk):
    run_seq(chk, [
        C("C09", "OneSlot", exp=1, len=3, tag="preds"),
        C("C09b", "OneSlot", exp=1, len=3, tag="preds"),
        C("C09c2", "C01cSlots2", exp=1, len=3, tag=""),
        C("C09c3", "C01cSlots3", exp=1, len=3, tag=""),
        *[C(f"C09c{n}", f"C09c{n}Slots", exp=1, len=2, tag="") for n in range(4, 13)],
        *[C(f"C09y{n}", f"C09y{n}Slots", exp=1, len=3, objs=(), fns=("F",), tag="") for n in (4, 7, 12)],
        C("C09x", "OneStatic", exp=1, len=4, objs=(), fns=("F",), tag="preds"),
    ], INST + [T.r_args, T.r_refs, T.r_static])

def c10(chk):
    run_seq(chk, [
        C("C10", "FourSlots", exp=1, len=6, lenb=7, objs=("o", "p"), tag="core", nb=8),
        C("C10b", "TwoOfOne", exp=1, len=6, tag="gen"),
        C("C10s", "FourSlots", exp=2, len=40, sim=60, objs=("o", "p"), tag="core", pace=9),
        C("C10x", "TwoGenStatic", exp=1, len=7, objs=(), fns=("F",), tag="gen"),
    ], INST + [T.r_static])

def c11(chk):
    run_seq(chk, [
        C("C11", "TwoStatic", exp=2, len=6, lenb=7, objs=(), fns=("F", "G"), tag="core", nb=8),
        C("C11m", "TwoStatic", exp=2, len=6, lenb=7, objs=(), fns=("F", "G"), tag="mod"),
        C("C11g", "TwoGenStatic", exp=2, len=6, objs=(), fns=("F",), tag="gen"),
        C("C11t", "OneStatic", exp=2, len=6, lenb=7, objs=(), fns=("F",), tag="std"),
        C("C11s", "TwoStatic", exp=4, len=40, sim=80, objs=(), fns=("F", "G"), tag="std", pace=6),
    ], [T.r_static])

def c12(chk):
    run_seq(chk, [
        C("C12", "ValStatic", exp=2, len=7, objs=(), fns=("F",), tag=""),
        C("C12b", "TwoValStatic", exp=1, len=7, objs=(), fns=("F", "G"), tag="core", nb=6),
        C("C12g", "TwoGenVal", exp=1, len=7, objs=(), fns=("F",), tag="gen"),
        C("C12s", "TwoValStatic", exp=4, len=40, sim=80, objs=(), fns=("F", "G"), tag="std", pace=5),
    ], [T.r_static])

def c15(chk):
    run_seq(chk, [
        C("C15", "ValSlot", exp=2, len=5, tag="std"),
        C("C15m", "MutSlot", exp=2, len=5, tag="std"),
        C("C15x", "ValStatic", exp=2, len=6, objs=(), fns=("F",), tag="std"),
    ], INST + [T.r_args, T.r_static])

def c19(chk):
    run_seq(chk, [
        C("C19", "C19Slots", exp=2, len=5, nseq=1, strict=True, tag="core", nb=8),
        C("C19v", "ValSlot", exp=1, len=4, strict=True, tag="std"),
        C("C19c3", "C01cSlots3", exp=1, len=4, strict=True, tag="multi"),
        C("C19x", "C19xSlots", exp=2, len=6, nseq=1, strict=True, objs=(), fns=("F",), tag="std"),
    ], INST + [T.r_args, T.r_static])

def c23(chk):
    run_seq(chk, [
        C("C23", "ValSlot", exp=2, len=6, tag="std"),
        C("C23b", "TwoVal", exp=2, len=6, nseq=1, tag="core"),
        C("C23d", "ValSlot", exp=2, len=6, lenb=7, nseq=1, tag="touchy"),
        C("C23p", "ValSlot", exp=2, len=5, lenb=6, nseq=1, tag="std"),
        C("C23p:2", "ValSlot", exp=2, len=5, lenb=6, nseq=1, tag="tclone"),
        C("C23x", "ValStatic", exp=2, len=6, objs=(), fns=("F",), tag="std"),
        C("C23px", "ValStatic", exp=2, len=5, lenb=6, nseq=1, objs=(), fns=("F",), tag="std"),
    ], INST + [T.r_touchy, T.r_static])

def c20(chk):
    run_seq(chk, [
        C("C20", "OneSlot", exp=2, len=6, lenb=7, tag="std"),
        C("C20b", "ValSlot", exp=2, len=5, lenb=6, tag="std"),
        C("C08r", "RefSlot", exp=2, len=6, tag="std"),
        C("C20m", "MutSlot", exp=2, len=5, lenb=6, tag="std"),
        C("C20c2", "C01cSlots2", exp=1, len=5, tag="multi"),
        C("C20c3", "C20c3Slots", exp=2, len=4, tag="multi"),
        C("C20c4", "C20c4Slots", exp=2, len=4, tag="multi"),
        C("C20s", "TwoOfOne", exp=3, len=30, sim=60, nseq=1, tag="core", pace=8),
        C("C20x", "OneStatic", exp=2, len=6, objs=(), fns=("F",), tag="std"),
        C("C20yb", "ValStatic", exp=2, len=6, objs=(), fns=("F",), tag="std"),
    ], [T.r_conz])

def c22(chk):
    def confs(on):
        n = "1" if on else "0"
        return [c for g, has in (("hd", True), ("nd", False)) for c in (
            C(f"C22v:{g}{n}", "ValSlot", exp=2, len=6, tag=g, nightly=on and has),
            C(f"C22r:{g}{n}", "RefSlot", exp=2, len=6, tag=g, nightly=on and has),
            C(f"C22m:{g}{n}", "MutSlot", exp=2, len=5, lenb=6, tag=g, nightly=on and has),
            C(f"C22x:{g}{n}", "ValStatic", exp=2, len=6, objs=(), fns=("F",), tag=g, nightly=on and has))]
    run_seq(chk, confs(True), [T.r_dflt], nightly=True, crate_name="h_c22n")
    run_seq(chk, confs(False), [T.r_dflt], crate_name="h_c22s")

def c13(chk):
    run_conc(chk, [
        CC("C13Scens", "OneVal", locks=1, bulks="NoBulks"),
        CC("C13qScens", "TwoVal", locks=1, nseq=1, bulks="BulksM"),
        CC("C13rScens", "OneRef", locks=1, bulks="BulksR"),
    ])

def c14(chk):
    run_conc(chk, [
        CC("C14Scens", "OneVal", locks=1, nb=3),
        CC("C14cScens", "TwoVal", locks=1, nb=6, dfs=600, bulks="BulksM", nseq=1),
    ])

def c16(chk):
    S = dict(objs=(), fns=("F",))
    run_conc(chk, [
        CC("C16Scens", "OneSta", locks=1, bulks="BulksS", **S),
        CC("C16bScens", "OneSta", locks=1, nb=3, **S),
        CC("C16gScens", "GenSta", locks=1, nb=3, dfs=600, **S),
        CC("C16hScens", "TwoSta", locks=1, nb=3, dfs=600, objs=(), fns=("F", "G"), nseq=1),
    ])

def c17(chk):
    run_shapes(chk)

def c21(chk):
    run_items(chk, "C21", 1000)

def c24(chk):
    run_items(chk, "C24", 1100)

def c18(chk):
    run_double(chk)

def c25(chk):
    run_expand(chk, procs=16 if chk.big else 5)

PROPS = dict(C25=c25, C18=c18, C21=c21, C24=c24, C17=c17, C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, C06=c06, C07=c07, C08=c08, C09=c09,
             C10=c10, C11=c11, C12=c12, C13=c13, C14=c14, C15=c15, C16=c16, C19=c19, C20=c20, C22=c22, C23=c23)
TECH, NOTES, NA = {}, {}, {}
SH = ("TLA+ specification of the {} (TLC enumerates them and derives what their mocks must be), every one declared in generated code; "
      "behaviours of Mockall.tla, exhaustive up to a bound, replayed on each")
TECH["C17"] = SH.format("supported signatures, Signatures.tla and Shapes.tla")
TECH["C21"] = TECH["C24"] = SH.format("items to be mocked, Items.tla")
TECH["C18"] = ("TLA+ specification of use-trees and of what #[double] binds (Double.tla): TLC enumerates the declarations, checks the translation "
               "against the meaning of imports, and derives what every name in reach means; every declaration is compiled in both builds and each name compared")
NOTES["C18"] = "Exhaustive over the finite families of the specification. Trusts TLC, rustc, and the generator of the Rust modules."
GN = ("Exhaustive over the finite families of the specification in the thorough tier; the quick tier declares a sample (chosen with VERIF_SEED) "
      "in which every pair of factors of a family occurs. Trusts TLC, rustc, and the generator that writes the items as Rust code.")
NOTES.update(C17=GN, C21=GN, C24=GN)
TECH["C25"] = ("TLA+ specification of macro expansion as a history of compiler processes (Expansion.tla: TLC checks that a deterministic expansion is a function of the item); "
               "items enumerated by TLC (Many.tla, Shapes.tla, Items.tla, Double.tla) are expanded by rustc in many processes, orders and crates, and TLC checks that what they yield is a behaviour of the specification")
NOTES["C25"] = ("Random keys are found with probability 1 - 1/(n!)^(processes - 1) for an item with n unordered parts, in hundreds of items at once. "
                "Trusts rustc's pretty printer to show differences in the code (spans and hygiene are not compared).")
CT = ("TLA+ specification of concurrent calls (MockallConc.tla): TLC computes every vector of outcomes that the interleavings of a scenario allow; "
      "the real code is run under a controlled scheduler (preemption-bounded DFS, random and free-running schedules), and every observed vector must be allowed")
CN = ("Exhaustive in the specification; in the code, all schedules with at most 2 preemptions (3 in the thorough tier) up to a cap per scenario, plus random ones. "
      "Assumes sequential consistency: weak memory orderings cannot be told apart on x86. Trusts TLC, rustc, and the scheduler's stand-ins for atomics and locks.")
for p in ("C13", "C14", "C16"):
    TECH[p], NOTES[p] = CT, CN
HOOKS = dict(guard="--cfg mockall_verif",
    enable="RUSTFLAGS='--cfg mockall_verif' cargo build: the atomics that mockall uses become ones that report to the controlled scheduler of harness/rt/conc.rs",
    source_commits=["54c4105c0caa63f6aec4f57d74a30d64aec2ead7"])
