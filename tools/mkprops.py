#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": [dict(zip(("name","meaning","where"), s)) for s in state],
                  "mechanism": [dict(zip(("name","where"), m)) for m in mech],
                  "observe_at": list(observe), "hook_needed": hook}})
NOTEST = "The repository's only passing tests print or build fixed data; nothing asserts this for any input. "
p("C01","Trees partition their training rows within the limits given",
 "A trained tree sends every training row it was given to exactly one leaf, each child node keeps exactly the rows that its parent's threshold sends to it, and node sample and branch counts agree with that. No node is deeper than the maximum depth, no child has fewer rows than (the integer part of) the minimum child weight, no node splits on a column that is not allowed, and each threshold is the midpoint of two neighbouring values present in the node (so both sides are non-empty). The options and data given are used as they are, also when the same options are used again for another tree.",
 ["inputs","configurations"],"all data matrices, gradients, depth/weight/column/row restrictions, regular and extreme boosting",
 NOTEST+"They reach one data set with default limits and no column restriction.",
 ["tree.go"],[("recursive growth of nodes","tree.go:NewTree, maybeInsertChildNode"),("search of thresholds","tree.go:findBetterSplit")],
 [("rows of a node","training rows that reach it","Tree.samples"),("remaining depth","how much a node may still grow","TreeOptions.MaxDepth")],
 ["boo.NewTree","Tree.JNode","Tree.Leftf/Rightf","Tree.Branches"])
p("C02","Every split is optimal and a node is a leaf only if nothing gains",
 "At every node that may still grow, the chosen split has the largest gain among all the admissible splits (all allowed columns, all thresholds between neighbouring values, minimum child weight), and the gain reported for the node is the gain of that split: half of GL2/(HL+lambda)+GR2/(HR+lambda)-G2/(H+lambda)-gamma for extreme boosting (a fraction with nothing below counts as zero), and the reduction of the squared error for regular boosting. A node above the maximum depth is a leaf only if it has no admissible split or, in extreme boosting, none with positive gain.",
 ["inputs","configurations"],"all data, gradients, hessians, lambda, gamma and limits",
 NOTEST+"Optimality quantifies over all the candidate splits of all the nodes; no test compares even one.",
 ["tree.go","utils/math.go"],[("running sums over the sorted rows","tree.go:findBetterSplit"),("argument sort","utils/math.go:MemArgSort")],
 [("best gain so far","gain of the split kept","Tree.bestScoreSoFar")],["boo.NewTree","Tree.JNode"])
p("C03","Leaf values and routing of predictions",
 "A leaf predicts minus the sum of its rows' gradients over the sum of their hessians plus lambda (extreme boosting; zero if that is zero), or the mean target of its rows (regular boosting). Any vector without NaNs, whether or not it was in the training data, is predicted with the value of the leaf reached by going left exactly when the feature is at most the threshold, and the single and batch interfaces, with or without a supplied buffer, agree.",
 ["inputs"],"all trees and all query vectors",NOTEST+"Predictions are never compared with anything.",
 ["tree.go"],[("value of a node","tree.go:NewTree"),("descent","tree.go:PredictSingle, Predict")],
 [("value","prediction of the node","Tree.value")],["Tree.Predict","Tree.PredictSingle"])
p("C04","Boosting: each tree is fitted at the current scores and added to its class",
 "Training starts all scores at the base score; in each round, class by class, a tree is grown (with the ensemble's depth, weight, lambda and gamma) on the loss gradients and hessians evaluated at the softmax of the current scores for that class, and learning rate times its prediction is added to the score of that class only. For regular boosting the leaves are then set to the sum of the negative gradients over the sum of the hessians (zero if there is no curvature). A sample's predicted probabilities are the softmax of base score plus learning rate times the sum of all the trees of each class, and the predicted class is the most probable one. However long the training, predictions are probability distributions and the model can be written.",
 ["inputs","configurations","histories"],"all data sets, labels, loss functions, learning rates, base scores, numbers of rounds and classes",
 NOTEST+"The invariant relates every tree to the whole history of previous trees; tests only print accuracies.",
 ["xgb.go","multiclass.go","utils/loss_acti.go"],[("boosting loop","xgb.go:NewMultiClass"),("leaf update","xgb.go:updateLeaves"),("prediction","multiclass.go:PredictSingle")],
 [("raw scores","sum of the trees so far per sample and class","xgb.go:rawPred")],["a loss function given by the check","JSONMultiClass","PredictSingle, PredictSingleClass"])
p("C05","Early stopping stops exactly the classes that stopped improving",
 "With early stopping set to E>0, a class receives no more trees after a round in which its training loss is at most 1e-6, or after E consecutive rounds whose loss is not below that of its previous round; until then it receives one tree in every round performed, and with E=0 it is never stopped. Stopping one class never affects the trees, predictions or reported rounds of any other class, and the numbers of rounds of each class and of classes reported by the model are the real ones (-1 for a class out of range).",
 ["histories","configurations"],"all histories of training losses, of any number of classes, and all values of the option",
 NOTEST+"Tests use one data set whose losses fall monotonically for most classes; class misalignment after a stop is invisible to them.",
 ["xgb.go","multiclass.go"],[("early-stop bookkeeping","xgb.go:NewMultiClass stopped/roundsNoProgress/prevloss"),("rounds","multiclass.go:Rounds, Classes")],
 [("stopped, rounds without progress, previous loss","per class","xgb.go:NewMultiClass")],["a loss function given by the check","Rounds","JSONMultiClass"])
p("C06","Row and column subsampling",
 "Each extreme-boosting round with row (column) subsampling below 1 draws one random set of rows (columns), the same for all the classes of that round and new for each round, in which each row (column) is included with the given probability; all the trees of the round are trained on exactly those rows using only those columns (all of them if none was drawn). Rounds with fewer rows than the minimum sample (or none) are skipped. Without subsampling, or in regular boosting, every tree is trained on all rows and columns; the sampler returns distinct increasing indexes in range.",
 ["inputs","configurations","histories"],"all sampling fractions, sizes, minimum samples and random draws",
 NOTEST+"Sampling is random and never observed by the tests.",
 ["xgb.go"],[("sampling","xgb.go:SubSample"),("one sample per round","xgb.go:NewMultiClass")],
 [("sampleIndexes, sampleCols","rows and columns of the round","xgb.go")],["boo.SubSample","leaf values of the trees, with a loss function given by the check"])
p("C07","A model written to a file and read back is the same model",
 "Writing an ensemble and reading it back gives an ensemble with the same kind, class labels, rounds per class, feature importance, and bit-identical probabilities for every vector; writing it again gives the same text, and the activation function used is the one registered with the name written. This includes ensembles with classes stopped early, a single class, and no trees.",
 ["inputs","histories"],"all ensembles that training can produce and all query vectors",
 NOTEST+"The round-trip test depends on missing data and compares printed accuracies.",
 ["xjson.go","utils/json.go"],[("writer","xjson.go:JSONMultiClass, utils/json.go:JSONTree"),("reader","xjson.go:UnJSONMultiClass, utils/json.go:UnJSONTree")],
 [("lines of the file","metadata, round and class headers, one line per node in preorder","xjson.go")],["JSONMultiClass","UnJSONMultiClass"])
p("C08","A truncated or failing model file never yields a wrong model",
 "Reading a model file cut at any byte, or from a reader that fails at any point, never panics: it returns an error, or, only when the cut falls between two trees, a model with exactly the trees completely contained before the cut. A cut in the middle of the metadata or of a tree and a read error are always reported as errors, as are a line that cannot be understood, a tree without its last lines, an unknown activation function and a tree for a class that does not exist; a write error at any point of writing a model is returned to the caller.",
 ["crash_points","fault_sequences"],"all cut positions of all files, all points of failure of the reader and of the writer",
 NOTEST+"No test truncates a file or injects a fault.",
 ["xjson.go","utils/json.go"],[("end of file handling","xjson.go:UnJSONMultiClass"),("error returns","utils/json.go:UnJSONTree")],
 [("position in the file","how much of the model was read","xjson.go")],["UnJSONMultiClass","JSONMultiClass"])
p("C09","Cross-validation folds partition the data",
 "For any data set and requested number of folds (5 if not positive), the sampler gives n train/test pairs and then nil pairs, with n the largest number of folds up to the requested one that leaves at least 2 samples per fold; an error accompanies a reduced n, and n=0 with an error is returned when even 2 folds are impossible. The test sets are disjoint and cover all the samples exactly once, each with at least as many samples as the total divided by n; each train set is exactly the complement of its test set; rows keep their own labels and the feature names. The original data are never modified, and with copies requested, changing a returned set changes nothing else.",
 ["inputs","configurations"],"all data sizes, fold numbers and random draws",
 NOTEST+"The cross-validation tests need missing data files and only print accuracies.",
 ["utils/stat.go"],[("fold assignment","utils/stat.go:CrossValidationSamples, fillRemaining"),("construction of the sets","utils/stat.go:fillDataBunch")],
 [("folds","which samples are in each fold","utils/stat.go")],["utils.CrossValidationSamples"])
p("C10","Accuracy is the percentage of right predictions, and CV its mean over folds",
 "Accuracy of a model on labelled data is 100 times the fraction of the samples whose predicted label (not index) equals their label, whatever number of classes is given. Cross-validation trains one model per fold with the options given on the training part only, and returns the plain mean of the accuracies on the test parts (0 for a fold in which no tree could be grown); run concurrently it sends exactly one nil error, that accuracy and the options evaluated, and if it cannot be performed it reports the error and an accuracy of -1 the same way.",
 ["inputs","configurations"],"all models, data sets, labels and fold numbers",
 NOTEST+"Only printed; a leak of test samples into training would even look like an improvement.",
 ["multiclass.go","cv/cv.go"],[("accuracy","multiclass.go:Accuracy"),("mean over folds","cv/cv.go:MultiClassCrossValidation")],
 [],["MultiClass.Accuracy","cv.MultiClassCrossValidation"])
p("C11","Grid search evaluates every combination exactly once and returns the best",
 "For every search space and number of CPUs, the grid search cross-validates every combination of the hyperparameter values in the space (from the first value in steps up to the last, inclusive; only the first if there is no step) exactly once, with the requested folds, kind of boosting and early stopping and the default values (of that kind of boosting) of everything that is not searched. It returns the accuracies of all of the combinations, the largest one as the best accuracy, and options with which that accuracy was obtained.",
 ["configurations","schedules"],"all search spaces, CPU counts (including 0 and more than the combinations) and goroutine interleavings",
 NOTEST+"The grid tests need missing data, and lost batches only change printed numbers.",
 ["cv/cv.go"],[("nested loops and batches","cv/cv.go:Grid"),("collection of results","cv/cv.go:rescueConcValues")],
 [("batch","evaluations in flight","cv/cv.go:Grid cpus, accs, errs, os")],["cv.Grid","hook in MultiClassCrossValidation"],
 "cv.VerifHook reports the begin and end of each evaluation (build tag verif)")
p("C12","Searches are live, bounded and clean under concurrency",
 "The searches always return: no interleaving of their goroutines deadlocks, the grid search never runs more than the requested number of CPUs (at least 1) evaluations at once, an evaluation error is returned as the error of the grid and gradient searches (which, without options, search the default space), and when a search or gradient step returns, with or without error, no evaluation of it is still running and no goroutine of it remains. There is no data race between the evaluations.",
 ["schedules","fault_sequences"],"all interleavings of evaluations, all points of failure, all CPU counts",
 NOTEST+"Tests never run with the race detector or inject evaluation errors, and one interleaving per run is sampled.",
 ["cv/cv.go","cv/grad.go","cv/hybrid.go"],[("buffered channels per slot","cv/cv.go:Grid"),("collection in slot order","cv/cv.go:rescueConcValues"),("goroutine per parameter","cv/grad.go:GradStep")],
 [("slot","channel triple of an evaluation in flight","cv/cv.go")],["cv.Grid","cv.GradientGrid","cv.HybridGradientGrid","cv.GradStep","hook in MultiClassCrossValidation"],
 "cv.VerifHook reports the begin and end of each evaluation (build tag verif)")
p("C13","Gradient searches return the best options they evaluated, inside the space",
 "The gradient and hybrid searches return options that they cross-validated (with the requested folds, boosting kind and early stopping, and the default loss of that kind) and that obtained the best accuracy returned; the accuracies returned are increasing and end in it. Nothing else that the search evaluated inside the space had a higher accuracy, other than what was evaluated around a point only to find the slope there, and from each start no more than the number of steps asked for, and at least one if any was, is made; the options that a step leads to are cross-validated, unless it leads nowhere. The options returned, and those a gradient step returns when started inside the search space, are inside the space, and everything evaluated is finite. Every combination of child weight and depth (and, in the hybrid search, of rounds and lambda) of the space is tried, starting from the middle of the ranges of the others. A gradient step from valid options evaluates the accuracy around the given point only, on both sides of each hyperparameter that moves (or at the point and above it), and moves a hyperparameter only towards the side where it found a higher accuracy, by the step asked for times the slope found (shortened until it fits in the space); given a channel, it sends the result to it and leaves the options given as they were.",
 ["configurations","schedules","histories"],"all search spaces, starting points, step sizes and random draws",
 NOTEST+"The tests only print what the search returned.",
 ["cv/grad.go","cv/hybrid.go"],[("bounds check","cv/grad.go:checkAgainstOptions"),("keeping the best","cv/grad.go:GradientGrid CompareAccs"),("gradient step","cv/grad.go:ParamaterGradStep, GradStep")],
 [("best so far","options and accuracy","cv/grad.go finaloptions, bestacc")],["cv.GradientGrid","cv.HybridGradientGrid","cv.GradStep","hook in MultiClassCrossValidation"],
 "cv.VerifHook reports the begin and end of each evaluation (build tag verif)")
p("C14","Confusion matrix and most confused labels",
 "The confusion matrix of a model on labelled data has, in row i and column j, the number of samples with the i-th label of the model that it predicts as the j-th one, so the diagonal adds up to the right predictions. For each label the top-N list gives the N (or all, if fewer) labels with the largest counts with their counts, in decreasing order, nothing for an unknown label, and the printed summary shows exactly the labels with samples and the non-zero counts with their names.",
 ["inputs"],"all models, data sets, labels, N and name maps, and all sequences of queries",NOTEST+"The confusion tests need missing data and only print.",
 ["confu/confu.go"],[("matrix","confu/confu.go:Matrix, MCConfusions"),("ranking","confu/confu.go:TopNForLabelM, PrintTopN")],
 [("matrix cache","computed once","Confusions.matrix")],["confu.MCConfusions","Matrix","TopNForLabelM","TopNPerLabel","PrintTopN"])
p("C15","Data files are read as written, and malformed ones are rejected",
 "Reading CSV (any separator, fields quoted or not, with or without header and labels) or libSVM (with or without header) text gives every sample in order with its own label and values and the feature names, whether or not the last line ends in a newline, and finite data with plain feature names written by the library as text read back as the same data to the printed precision, with the libSVM features numbered from one (a data set without samples is an empty text). Text with a non-numeric value or label, a malformed term or samples of different lengths gives an error and no data, and so does a reader that fails at any point; no text makes the readers panic. Label-name files give the name of each label, or an error.",
 ["inputs"],"all texts","Tests read fixed files (missing) and inspect the output by eye.",
 ["utils/csv.go","utils/libsvm.go","confu/confu.go"],[("CSV","utils/csv.go:ParseCSVFromReader, CSV"),("libSVM","utils/libsvm.go:ParseLibSVMFromReader, LibSVM"),("names","confu/confu.go:ReadNameMap")],
 [],["utils.ParseCSVFromReader","utils.ParseLibSVMFromReader","DataBunch.CSV","DataBunch.LibSVM","confu.ReadNameMap"])
p("C16","Feature importance adds up every split exactly once",
 "The importance of a feature in a tree or ensemble is the sum of the gains of all the splits made on that feature in all of its trees, features never split on do not appear, and the features are reported from most to least important for both kinds of boosting (largest gain first for extreme boosting, most negative first for regular boosting). Adding and merging contributions concurrently loses none of them.",
 ["inputs","schedules"],"all ensembles, and all interleavings of additions",NOTEST+"The importance test only prints.",
 ["tree.go","multiclass.go"],[("accumulation under a lock","tree.go:Feats.Add, Merge"),("traversal","tree.go:FeatureImportance, multiclass.go:FeatureImportance")],
 [("feat, gains","totals per feature","Feats")],["FeatureImportance","Feats.Add","Feats.Merge","Feats.String"])
p("C17","Training and prediction have no side effects and are reproducible",
 "Training, predicting, computing accuracy, importance or confusions, and writing a model never change the data, labels or options given, nor any other model, and models keep giving the same predictions whatever is done afterwards, including changing the options they were trained with or the slices returned by the library. Without subsampling, training twice on the same data and options gives identical models, whether or not the options are verbose, and training without options is training with the default ones; also when models are trained and used from several goroutines at once, without data races.",
 ["histories","schedules"],"all sequences and interleavings of library operations on shared data and options",NOTEST+"No test repeats an operation or compares state before and after.",
 ["xgb.go","tree.go","multiclass.go","cv/cv.go"],[("copies of the options","tree.go:NewTree, options.go:Clone"),("per-call buffers","multiclass.go:PredictSingle")],
 [],["all public operations"])
p("C18","Loss functions, softmax and normalization",
 "For labels and predictions, both losses are the mean squared difference, gradients are prediction minus label (negative gradients the opposite), and the hessian is 1 (square error) or p(1-p) (mean square error), in a new matrix or the one supplied, leaving their inputs unchanged. For all finite inputs, however large, softmax gives a probability distribution (non-negative, adding up to 1) that preserves the order and is invariant under a common shift, with p_i/p_j=exp(x_i-x_j), and normalization divides by the sum, in a new slice or the one supplied (which may be longer); matrix versions act on each row independently.",
 ["inputs"],"all finite labels, predictions and scores, of any size",NOTEST+"No test calls them with chosen values.",
 ["utils/loss_acti.go"],[("losses","utils/loss_acti.go:SQErrLoss, MSELoss"),("activations","utils/loss_acti.go:SoftMax, Normalization, activationDense")],
 [],["utils.SQErrLoss","utils.MSELoss","utils.SoftMax","utils.SoftMaxDense","utils.Normalization","utils.NormalizationDense"])
p("C19","Options: copies are complete and independent, equality exact, checks right",
 "A clone of ensemble or grid options equals the original in every field and shares no state with it. Two options are equal exactly when all their fields are equal. Validity checking accepts exactly the options with positive rounds and learning rate, sampling fractions in (0,1], non-negative lambda and gamma, minimum child weight at least 1, depth at least 2 and minimum sample at least 1.",
 ["inputs","configurations"],"all option values, including single-field differences",NOTEST+"No test clones, compares or checks options.",
 ["options.go","cv/cv.go"],[("copy","options.go:Clone, cv/cv.go:GridOptions.Clone"),("comparison","options.go:Equal"),("validation","options.go:Check")],
 [],["Options.Clone","Options.Equal","Options.Check","GridOptions.Clone"])
p("C20","Matrix, sampling and encoding utilities",
 "One-hot encoding lists the distinct labels in order of first appearance and puts in each row a single 1 in the column of its label. Sampling rows/columns, transposition, argument sorting (a permutation, with the sorted values, leaving the input alone), column extraction and addition and filling with ones (of a matrix or of a view of one, touching nothing else, and rejecting columns out of range or of other lengths), most probable class per row (the first one, on ties) and log-odds do what they state for every matrix.",
 ["inputs"],"all matrices and index lists",NOTEST+"They are only exercised indirectly.",
 ["utils/math.go","utils/libsvm.go","utils/sorter.go","xgb.go"],[("utilities","utils/math.go"),("encoding","utils/libsvm.go:oneHotEncodeDense"),("classes and log-odds","xgb.go:ClassesFromProbs, LogOddsFromProbs")],
 [],["utils.SampleMatrix","utils.ArgSort","utils.MemArgSort","utils.TransposeFloats","utils.DenseCol","utils.AddToCol","DataBunch.OHELabels","boo.ClassesFromProbs","boo.LogOddsFromProbs"])
p("C21","A search asked to write its best model leaves that model in a file",
 "When any of the searches (grid, gradient, hybrid) is asked to write its best models, on return the working directory has a file xgbmodelN.json, with N the whole part of the best accuracy, that is the complete model trained on all the data with the options returned. Any other file it wrote is the complete model of options it evaluated with the accuracy in its name. Nothing is written if it was not asked for.",
 ["configurations","histories"],"all search spaces, data sets and sequences of results",NOTEST+"The searches are never run by the passing tests.",
 ["cv/cv.go","cv/grad.go","cv/hybrid.go"],[("writing","cv/cv.go:writeBest"),("when","cv/cv.go:rescueConcValues, cv/grad.go and cv/hybrid.go CompareAccs")],
 [("files","one per whole accuracy, the last best one","working directory")],["cv.Grid","cv.GradientGrid","cv.HybridGradientGrid","hook in MultiClassCrossValidation"],
 "cv.VerifHook reports the begin and end of each evaluation (build tag verif)")
p("C22","Printed reports say what the objects are",
 "The printed form of a tree has, in order and indented by depth, the feature (its name if one was given for it, else its zero-based number) and threshold of every split, what follows if it holds and if it does not, and the value and training samples of every leaf. Printed options show every hyperparameter of their kind of boosting, printed data sets the names and each sample with its label (-1 without labels), printed matrices (or views) all their rows, a printed node of a model file its fields, and a verbose training one line per tree with its round, class and training loss; numbers are right to the printed precision.",
 ["inputs"],"all trees, names (also fewer than the features), options, data sets and matrices",NOTEST+"Nothing printed is ever compared.",
 ["tree.go","options.go","utils/libsvm.go","utils/math.go","xgb.go"],[("tree","tree.go:Print, feature"),("options","options.go:String"),("data","utils/libsvm.go:String"),("matrix","utils/math.go:PrintDenseMatrix"),("training","xgb.go:NewMultiClass, Verbose"),("node","utils/json.go:JSONNode.String")],
 [],["Tree.Print","Options.String","DataBunch.String","utils.PrintDenseMatrix","standard output of NewMultiClass","JSONNode.String"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
