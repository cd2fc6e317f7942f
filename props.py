"""What each property's check runs. See DESIGN.md."""
import os

HERE = os.path.dirname(os.path.abspath(__file__))
CHECKS, LEVEL, ASSUME, TECH, NOTE, NA = {}, {}, {}, {}, {}, {}


def known(pid):
    """Known findings of this property: the text after the property id."""
    r = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            pre = "known: property=%s " % pid
            if ln.startswith(pre):
                r.append(ln[len(pre):].strip())
    return r


def check(pid, tech, note, **kw):
    def deco(f):
        CHECKS[pid] = f
        TECH[pid] = "TLA+/TLC: " + tech
        NOTE[pid] = note
        LEVEL[pid] = kw.get("level", "model_checking")
        ASSUME[pid] = kw.get("assume", [])
        return f
    return deco


def tree(mode):
    def f(x):
        x.model("MCTree", "MCTreeBig.cfg" if x.thorough else "MCTree.cfg")
        p, cases = x.drive("tree")
        x.validate("TreeTrace", p, cases, mode)
    return f


TREENOTE = ("TLC exhausts the growth of every tree on every tiny data set and option (MCTree), and accepts a recorded run of the real "
            "code only if every node is a step of that specification. Assumes integer features, gradients and hessians (exact in the "
            "specification; the features are also mapped to extreme and neighbouring floats); sizes up to about 110 rows and 12 features.")
check("C01", "Tree.tla model checked; node-by-node trace validation of real trees (structure)", TREENOTE)(tree("structure"))
check("C02", "Tree.tla model checked; trace validation of every split against all admissible splits (exact fractions)", TREENOTE)(tree("gain"))
check("C03", "Tree.tla model checked; trace validation of leaf values and routed predictions", TREENOTE)(tree("value"))


BOOSTNOTE = ("TLC exhausts the boosting loop with every history of losses of two classes (MCBoost), and accepts a recorded training run only "
             "if every request for gradients, tree, loss and prediction is a step of the specification. The loss function is an instrument of "
             "the check. Scores are exact multiples of ln 2 (any number of classes) or fixed-point with two classes; small data sets.")


def boost(x):
    x.model("MCBoost", "MCBoostBig.cfg" if x.thorough else "MCBoost.cfg")
    p, cases = x.drive("boost")
    x.validate("BoostTrace", p, cases, "boost")


def stop(x):
    x.model("MCBoost", "MCBoostBig.cfg" if x.thorough else "MCBoost.cfg")
    scen, n = x.generate("MCBoost", "GenBoostBig.cfg" if x.thorough else "GenBoost.cfg")
    p, cases = x.drive("stop", scen=scen)
    x.validate("BoostTrace", p, cases, "stop")


check("C04", "Boost.tla model checked; trace validation of real training runs through an instrumented loss function", BOOSTNOTE)(boost)
check("C05", "Boost.tla model checked; every loss history it generates is replayed in the real code and the run validated", BOOSTNOTE)(stop)


def sample(x):
    x.model("MCSample")
    p, cases = x.drive("sample")
    x.validate("SampleTrace", p, cases)


check("C06", "Sample.tla model checked; trace validation of the rows and columns each real tree was trained on (decoded from its leaves)",
      "TLC exhausts draws of rows for two classes (MCSample); real trees reveal exactly the rows they used because row i has gradient +-2^i, and a "
      "round is accepted only if some set of columns explains all of its trees as optimal. Probabilities are decided by 7-sigma bounds.")(sample)


def roundtrip(x):
    x.model("MCStore", "MCStoreBig.cfg" if x.thorough else "MCStore.cfg")
    x.model("MCModelFile", "MCModelFileBig.cfg" if x.thorough else "MCModelFile.cfg")
    scen, n = x.generate("MCModelFile", "GenModelFileBig.cfg" if x.thorough else "GenModelFile.cfg")
    p, cases = x.drive("roundtrip", scen=scen)
    x.validate("StoreTrace", p, cases)


def cut(x):
    x.model("MCModelFile", "MCModelFileBig.cfg" if x.thorough else "MCModelFile.cfg")
    scen, n = x.generate("MCModelFile", "GenModelFileBig.cfg" if x.thorough else "GenModelFile.cfg")
    p, cases = x.drive("cut", scen=scen)
    x.validate("FileTrace", p, cases)


check("C07", "Store.tla and ModelFile.tla model checked; write/read histories of real models, and every small ensemble of the specification, validated as traces",
      "Every observation of a read model (labels, rounds, importance, probabilities bit by bit, text) must be the one of the model written. "
      "Trained models are small; the vectors predicted are sampled.")(roundtrip)
check("C08", "ModelFile.tla (writer and reader automata) model checked for every cut; real files cut at every byte, and failing readers and writers, validated against it",
      "TLC exhausts all the cuts of all the small ensembles; real files are cut at every byte (larger ones at sampled bytes) and the outcome "
      "must be one that the automaton allows.")(cut)


def folds(x):
    x.model("MCFolds", "MCFoldsBig.cfg" if x.thorough else "MCFolds.cfg")
    p, cases = x.drive("folds")
    x.validate("FoldsTrace", p, cases)


def cvmean(x):
    x.model("MCCrossVal", "MCCrossValBig.cfg" if x.thorough else "MCCrossVal.cfg")
    p, cases = x.drive("cv")
    x.validate("CVTrace", p, cases)


check("C09", "CVFolds.tla model checked for every drawing of small data sets; recorded folds of the real sampler validated as its behaviours",
      "TLC exhausts the drawings of up to 6 (9) samples; the real sampler is run for every size up to 14 and requested folds up to 9, and larger ones at random.")(folds)
check("C10", "CrossVal.tla model checked; real cross-validations (folds and training parts seen through an instrumented loss function) and accuracies validated as traces",
      "Uses data in which a sample is either learnt for certain or, being the only one with its label, certainly wrong, so the mean accuracy is determined by the folds.")(cvmean)


def grid(x):
    x.model("MCGrid", "MCGridBig.cfg" if x.thorough else "MCGrid.cfg")
    p, cases = x.drive("grid", timeout=800)
    x.validate("SearchTrace", p, cases, "grid")


def live(x):
    x.model("MCGrid", "MCGridBig.cfg" if x.thorough else "MCGrid.cfg")
    x.model("MCGrid", "MCGridBig2.cfg")
    x.model("MCGrid", "MCGrid0.cfg")
    x.model("GradStep", "MCGradStepBig.cfg" if x.thorough else "MCGradStep.cfg")
    x.model("GradStep", "MCGradStepF.cfg")
    p, cases = x.drive("live", race=True, timeout=800)
    x.validate("SearchTrace", p, cases, "live")


def climb(x):
    x.model("Climb", "MCClimbBig.cfg" if x.thorough else "MCClimb.cfg")
    p, cases = x.drive("climb", timeout=800)
    x.validate("SearchTrace", p, cases, "climb")


SEARCHNOTE = ("The begin and end of every evaluation are recorded by a hook (build tag verif), that also lets the check choose the order in which "
              "concurrent evaluations end. Spaces are small, with steps that are exact in floating point.")
check("C11", "Grid.tla (coordinator, evaluations, channels) model checked for every schedule; recorded grid searches validated as traces", SEARCHNOTE)(grid)
check("C12", "Grid.tla and GradStep.tla model checked, with liveness, for every schedule; recorded searches (race detector on, orders of completion forced) validated as traces", SEARCHNOTE)(live)
check("C13", "Climb.tla model checked; recorded gradient and hybrid searches and gradient steps validated as traces", SEARCHNOTE)(climb)


def confusion(x):
    x.model("MCConfusion", "MCConfusionBig.cfg" if x.thorough else "MCConfusion.cfg")
    p, cases = x.drive("confusion")
    x.validate("ConfusionTrace", p, cases)


check("C14", "Confusion.tla model checked; the confusions of real models, asked in any order, validated sample by sample as traces",
      "TLC exhausts all the samples up to 4 (6) of 3 labels. Real models have up to 17 classes; labels unknown to the model and labels without samples included.")(confusion)


def text(x):
    x.model("MCText", "MCTextBig.cfg" if x.thorough else "MCText.cfg")
    p, cases = x.drive("text")
    x.validate("TextTrace", p, cases)


check("C15", "Text.tla (readers as automata over characters) model checked on every short text; every short text given to the real readers and the results validated against it",
      "TLC exhausts the texts of up to 5 (7) characters of an alphabet with digits, a letter, separators, blanks and newlines, and the real readers get all of those too; "
      "longer and full-precision documents, broken in one place or not, random bytes, failing devices and written data sets are sampled.")(text)


def importance(x):
    x.model("MCImportance", "MCImportance.cfg")
    if x.thorough:
        x.model("MCImportance", "MCImportanceBig.cfg")
    p, cases = x.drive("importance", race=True)
    x.validate("ImportanceTrace", p, cases)


check("C16", "Importance.tla (concurrent additions under a lock) model checked, with liveness; importances reported by the real code (race detector on) validated against the splits of its trees",
      "TLC exhausts the schedules of 2 (3) goroutines with up to 2 contributions each. Gains of handmade ensembles are exact; those of trained ones are compared to the printed precision.")(importance)


def pure(x):
    x.model("MCStore", "MCStoreBig.cfg" if x.thorough else "MCStore.cfg")
    p, cases = x.drive("pure", race=True, timeout=800)
    x.validate("StoreTrace", p, cases)


check("C17", "Store.tla (objects whose answers depend on nothing but their own content) model checked; histories of training, using, writing and changing real objects, partly concurrent with the race detector on, validated as traces",
      "Histories of up to about 14 operations, some of them with up to 6 goroutines; small data sets. The race detector sees the schedules that happen.")(pure)


def loss(x):
    x.model("MCLoss", "MCLoss.cfg")
    p, cases = x.drive("loss")
    x.validate("LossTrace", p, cases)


check("C18", "Loss.tla (registers of matrices) model checked; sequences of loss, gradient, hessian and activation calls of the real code validated as traces",
      "Inputs are exact in the specification: eighths, and 16ths of ln 2 for softmax (with any shift, and vanishing or overflowing exponents).")(loss)


def options(x):
    x.model("MCOptionSet", "MCOptionSetBig.cfg" if x.thorough else "MCOptionSet.cfg")
    p, cases = x.drive("options")
    x.validate("OptionTrace", p, cases)


check("C19", "OptionSet.tla model checked; histories of changes, copies, comparisons and checks of real options validated as traces",
      "All of the fields (found by reflection) and boundary values of each one; combinations of values are sampled. NaN is left out.")(options)


def util(x):
    x.model("MCUtil", "MCUtilBig.cfg" if x.thorough else "MCUtil.cfg")
    p, cases = x.drive("util")
    x.validate("UtilTrace", p, cases)


check("C20", "Util.tla (helpers as functions, matrices and views as cells, the sorter as a permutation) model checked; sequences of calls of the real helpers validated as traces",
      "TLC exhausts all the sequences of up to 3 (4) of 3 values for the pure functions, and up to 5 (6) operations on matrices, views and sorters. Real calls use matrices of whole numbers of up to 50 by 50, and up to about 1500 in one dimension (argument sorting: 2300 values; one-hot: 600 labels).")(util)


def best(x):
    x.model("BestFile", "MCBestFileBig.cfg" if x.thorough else "MCBestFile.cfg")
    p, cases = x.drive("best", timeout=800)
    x.validate("BestTrace", p, cases)


check("C21", "BestFile.tla model checked; searches that write their best model are run and the files left validated against what was evaluated and returned",
      "The model of some options is determined by them because no sub-sampling is used. Small data sets and spaces.")(best)


def report(x):
    x.model("MCReport", "MCReportBig.cfg" if x.thorough else "MCReport.cfg")
    p, cases = x.drive("report")
    x.validate("ReportTrace", p, cases)


check("C22", "Report.tla (printed lines as sequences of fields, readable back) model checked; what the real code prints of trees, options, data, matrices and trainings validated line by line",
      "TLC exhausts all the trees of up to 5 (7) nodes. Printed numbers are compared to their printed precision.")(report)
