"""Writes /verif/properties.jsonl (one place to edit the list)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": text}, "why_tests_cant": why,
              "anchors": {"files": list(files), "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": None}})


TG = "ml/tree/hetero_decision_tree_guest.py"
TH = "ml/tree/hetero_decision_tree_host.py"
BG = "ml/tree/hetero_secureboosting_tree_guest.py"
BH = "ml/tree/hetero_secureboosting_tree_host.py"
NOTEST = "The only runnable tests call each table operation once on one small table; "

prop("C01", "Federated training is lossless",
     "For any vertical partition of a data set over one guest and any number of hosts, every tree that federated training produces is a tree that plain XGBoost training over the joined binned data could have produced: each internal node uses a split (feature of any party, threshold from that party's bins) whose gain on the samples that reach it is the largest among all admissible splits of all parties, each leaf carries weight -G/(H+lambda) of the samples that reach it, and a node is a leaf exactly when no admissible split exceeds the gain threshold or the maximum depth is reached. Consequently neither the encryption, nor which party holds a column, nor the number of hosts changes the scores the model gives, apart from choices between equally good splits. The loss recorded after each round is the loss of the model's own scores on the training data.",
     ["inputs", "configurations"], "all training tables, label sets, column partitions, numbers of hosts, tree and boosting parameters",
     NOTEST + "no test trains a federated model, and the sampled data sets of an end-to-end test would exercise a few splits only",
     [TG, TH, BG, BH, "ml/tree/splitter.py", "ml/tree/feateur_histogram.py", "ml/tree/creterion.py"],
     [("guest/host split merge", TG), ("encrypted histogram and candidate splits", TH), ("gain and weight formulas", "ml/tree/creterion.py")],
     ["trees and thresholds of guest and hosts after fit", "loss history", "predicted scores"])

prop("C02", "Prediction applies exactly the trained trees",
     "For every record, the score a trained federated model predicts is the initial score plus the learning rate times the sum of the weights of the leaves reached by comparing the record's raw values with the stored thresholds (value <= threshold goes left), each party evaluating only its own features; the returned probability, label and per-class table are those implied by that score (binary: positive class iff probability > threshold; multi-class: the class of greatest probability; regression: the score). The result for a record depends on that record only, not on the other records, their order or their number, and predicting the training records gives the scores that training ended with.",
     ["inputs", "configurations"], "all trained models, prediction tables (including records never seen in training) and thresholds",
     NOTEST + "no test predicts with a federated model",
     [TG, TH, BG, BH], [("guest traversal", TG), ("host traversal", TH), ("score to label", BG)],
     ["result table of predict on the guest"])

prop("C03", "Only protected information crosses between parties",
     "During training and prediction, the messages a guest sends contain no label, no per-record gradient or hessian in the clear, no score, no leaf weight, no guest feature value and no guest threshold, and the private key never leaves the guest; the messages a host sends contain no host feature value and no host threshold. What hosts return about their columns is ciphertext sums and opaque split references; gradients and hessians reach hosts only as ciphertexts.",
     ["inputs", "configurations"], "all training and prediction runs, numbers of hosts, data sets and encryption modes; every message in both directions",
     "Secrecy is about every message of every run; no test looks at any message",
     [TG, TH, BG, BH, "ml/secureprotol/encrypt_mode.py"],
     [("masked node queue", TG), ("encrypted gradients", TG), ("per-party threshold dictionary", TH), ("tree broadcast", TG)],
     ["every object handed to the transport by either side", "model parameters stored by each side after fit"])

prop("C04", "The federated protocol always completes, under every schedule",
     "For any number of hosts, any order in which hosts connect and are scheduled, and any amount of buffering in the network, training followed by prediction completes on all parties: no party waits for a message that is never sent, no sent message is left unread, and all parties build the same number of trees and stop in the same round. The model and the predictions do not depend on the schedule or on buffering.",
     ["schedules", "configurations", "inputs"], "all interleavings of guest and hosts, buffering from none to unbounded, connection orders, early-stopping outcomes",
     "Tests run no protocol at all, and a single real run exercises one schedule",
     [TG, TH, BG, BH, "federation/transfer_inst.py"],
     [("stop flag", BG), ("empty node queue ends a tree early", TG), ("prediction finish tag", TG)],
     ["completion of fit/predict on every party", "unread messages", "numbers of trees per party"])

prop("C05", "Growth limits hold and trees are well formed",
     "Every tree a guest trains is a proper binary tree rooted at node 0 with unique ids, every internal node having exactly two children and every leaf none, of depth at most the configured maximum; every split separates at least the minimum number of samples on each side, is made only at nodes with at least the minimum number of samples to split and has gain above the configured minimum; and every training record reaches exactly one leaf. Splitting nodes in batches of any size gives the same trees, and the feature importances count exactly the internal nodes (or sum exactly their gains) per party and feature.",
     ["inputs", "configurations"], "all tables and tree parameters (depth, minimum samples, minimum leaf size, minimum gain, batch size, feature subsampling)",
     NOTEST + "no test grows a tree",
     [TG, TH, "ml/tree/splitter.py", "ml/tree/decision_tree.py"],
     [("split admissibility", "ml/tree/splitter.py"), ("node queue update", TG), ("batching of nodes", TG)],
     ["tree parameters", "feature importances"])

prop("C06", "Training and prediction leave the caller's data unchanged",
     "Training, binning and predicting never modify the records, features, labels or header of the tables the caller passed in. Hence the same table can be used again: predicting twice gives the same result, predicting a table that was used for training gives the same result as predicting an equal fresh table, and training twice on it gives the same model up to encryption randomness.",
     ["inputs", "histories"], "all tables (dense or sparse) and all sequences of fit and predict calls on shared tables",
     "Needs sequences of operations on shared objects; tests use each table once",
     ["ml/tree/boosting_tree.py", "ml/feature/binning/base_binning.py", BG, BH],
     [("conversion to sparse records", "ml/tree/boosting_tree.py"), ("conversion to bin indices", "ml/feature/binning/base_binning.py")],
     ["the caller's tables before and after each call"])

prop("C07", "A tree survives being saved and loaded",
     "The model description and parameters a trained tree hands out describe it completely: serialising them to bytes, parsing them back and loading them into a new tree on the guest and on the hosts gives a tree that routes every record to the same leaf weight, and handing them out again gives the same bytes. Thresholds and weights keep their full double precision.",
     ["inputs"], "all trained or synthetic trees, thresholds, weights and node ids",
     NOTEST + "no test serialises a model",
     [TG, TH, "arch/api/boosting_tree_model_meta_pb2.py", "arch/api/boosting_tree_model_param_pb2.py"],
     [("get_model/load_model", TG), ("get_model/load_model", TH), ("message definitions", "arch/api/boosting_tree_model_param_pb2.py")],
     ["get_model / load_model of both tree classes"])

prop("C08", "The centralised trainer agrees with federated training",
     "The single-party XGBoost trainer shipped with the project follows the same rules as federated training: its trees have maximal gain splits, leaf weights -G/(H+lambda) and the same growth limits, its predictions are its trees applied to raw values, and on the same joined columns it produces the same scores as a federation that holds those columns vertically (up to choices between equally good splits).",
     ["inputs", "configurations"], "all data sets, partitions and parameters",
     "The shipped script for it (test_xgboost.py) checks nothing and cannot run here",
     ["xgboost/hetero_secureboosting_tree_guest.py", "xgboost/hetero_decision_tree_guest.py"],
     [("local boosting", "xgboost/hetero_secureboosting_tree_guest.py"), ("local tree", "xgboost/hetero_decision_tree_guest.py")],
     ["trees, loss history and predictions"])

prop("C09", "Paillier arithmetic is exact",
     "Decrypting an encrypted number returns the number (integers exactly, floats to within double-precision relative error), and for every expression built from encrypted numbers and plain scalars with +, -, * by a scalar and / by a scalar, in either operand order, decrypting the result gives the value of the same expression on the plain values up to floating-point rounding, as long as values and scale stay within the range the key supports. A number outside the key's range is refused at encryption, and a sum of integers that leaves the range is reported as overflow at decryption, never returned as a wrong number.",
     ["inputs"], "all key sizes of at least 128 bits, all int and float operands of any magnitude and sign, all expression trees within range, and operands just outside it",
     NOTEST + "no test encrypts anything",
     ["ml/secureprotol/fate_paillier.py", "ml/secureprotol/fixedpoint.py", "ml/secureprotol/gmpy_math.py"],
     [("ciphertext operators", "ml/secureprotol/fate_paillier.py"), ("encode/decode", "ml/secureprotol/fixedpoint.py")],
     ["encrypt, decrypt and the operators of an encrypted number"])

prop("C10", "Keys and ciphertexts are sound and randomised",
     "Key generation returns, for every requested length of at least 64 bits, a modulus of exactly that length that is the product of two different primes and a matching private key, and different calls give different keys; seeding the ordinary random generator does not make keys or ciphertexts predictable. Encryption is randomised: encrypting the same value twice gives different ciphertexts that decrypt alike, a ciphertext handed out for transmission is always blinded, and combining or decrypting under the wrong key is refused. The modular arithmetic underneath (powers, inverses, integer roots, primes of a given length) is exact.",
     ["inputs", "histories"], "all key lengths and values, and sequences of encryptions under one or several keys",
     NOTEST + "no test generates a key",
     ["ml/secureprotol/fate_paillier.py", "ml/secureprotol/gmpy_math.py", "ml/secureprotol/encrypt.py"],
     [("generate_keypair", "ml/secureprotol/fate_paillier.py"), ("apply_obfuscator", "ml/secureprotol/fate_paillier.py"), ("getprimeover", "ml/secureprotol/gmpy_math.py")],
     ["public and private keys", "ciphertexts"])

prop("C11", "All encryption modes deliver the current gradients",
     "Whatever the encryption mode (strict, fast or balance with any rate) and whatever tables were encrypted before, the table an encryption-mode calculator returns decrypts, key by key and element by element, to the values it was just given (up to accumulated rounding) in the same container shape. In strict mode, and in balance mode at rate 1, every call encrypts everything afresh; in fast mode only the first call does, and later ones only for records the previous table did not hold; the input table is not modified. Training sends the gradients of every tree, of every class, through such a calculator in the configured mode at the configured rate.",
     ["histories", "configurations"], "all sequences of gradient tables (the same records or others, in any order), all modes and rates, all row shapes (scalar, tuple, list, array)",
     "Needs histories of several rounds; no test uses the calculator",
     ["ml/secureprotol/encrypt_mode.py"], [("difference update", "ml/secureprotol/encrypt_mode.py")],
     ["the table returned by each call"])

prop("C12", "Fixed-point numbers encode and compute faithfully",
     "Encoding an int or float as a fixed-point number and decoding it returns the value (integers exactly, floats to relative error 2^-48), comparisons agree with comparisons of the decoded values, and +, -, *, / between fixed-point numbers and plain numbers in either order give the same result as on the plain values to the same precision, under any modulus the numbers were encoded for, as long as the results fit it. A value too large for the modulus is rejected when it is encoded instead of wrapped.",
     ["inputs"], "all ints, floats and numpy scalars, moduli and operand orders within range; values beyond it",
     NOTEST + "no test uses fixed-point numbers",
     ["ml/secureprotol/fixedpoint.py"], [("encode/decode", "ml/secureprotol/fixedpoint.py"), ("operators", "ml/secureprotol/fixedpoint.py")],
     ["encode, decode and the operators"])

prop("C13", "The other ciphers and bulk encryption are lossless",
     "RSA encryption followed by decryption returns every integer below the modulus, before and after the keys are handed over through the getters and setters; the affine cipher returns every number it encodes and is additively homomorphic within its range; encrypting or decrypting a list, a table or an array of any dimension equals doing it element by element, keeping keys, order and shape, for every cipher (arrays are decrypted to doubles). A cipher without the needed key returns nothing instead of a wrong value.",
     ["inputs"], "all plaintexts in range, ciphers, list/table/array shapes, key hand-overs",
     NOTEST + "no test uses the ciphers",
     ["ml/secureprotol/encrypt.py", "ml/secureprotol/affine.py", "ml/secureprotol/affine_encoder.py", "ml/secureprotol/gmpy_math.py"],
     [("RsaEncrypt", "ml/secureprotol/encrypt.py"), ("recursive_encrypt/decrypt, list and table helpers", "ml/secureprotol/encrypt.py"), ("AffineCipherKey", "ml/secureprotol/affine.py")],
     ["encrypt/decrypt results"])

prop("C14", "A table behaves like a keyed map",
     "For every history of operations, a distributed table agrees with a plain ordered dictionary: map, mapValues, mapPartitions, mapReducePartitions, filter, join, union, subtractByKey, reduce, collect, take, first and count return what the dictionary model returns, join pairing the values in (self, other) order on the common keys and union keeping every key once; operations never change their operands, and duplicate keys or malformed items are rejected when a table is created.",
     ["histories", "inputs"], "all sequences of table operations on all tables (empty, single, large, colliding keys, falsy and None-like values)",
     "The tests call each operation once on one fixed non-empty table; they never chain operations, use empty tables, colliding keys with different values, or look at the operands afterwards",
     ["computing/d_table.py", "computing/_computing.py"], [("DTable operations", "computing/d_table.py")],
     ["results and operands of every operation"])

prop("C15", "A message arrives exactly as sent, however it is fragmented",
     "Any sequence of picklable objects sent over a connection is received as the same sequence of equal objects in the same order, for every way in which the network fragments or coalesces the byte stream and for every message size, with no byte of one message taken for part of another.",
     ["inputs", "schedules", "fault_sequences"], "all object sequences and all fragmentations of the byte stream, including splits inside the length header",
     "No test uses the transport; a loopback run practically never fragments a header",
     ["federation/transfer_inst.py"], [("length-prefixed framing", "federation/transfer_inst.py")],
     ["objects returned by the receiving side"])

prop("C16", "Transport routing is exact and failures surface",
     "Data sent to host i reaches exactly host i, data sent to all hosts reaches every host once, receiving from all hosts returns one message per host in connection order, and an index that is not a host is rejected without sending anything. When a peer closes or resets the connection at any point, the receiver gets an error: it neither waits for ever nor returns a truncated or made-up object.",
     ["fault_sequences", "inputs", "crash_points"], "all numbers of hosts, routing indices, message sequences, and every byte position at which a peer may disappear",
     "No test uses the transport or injects a failure",
     ["federation/transfer_inst.py"], [("index routing", "federation/transfer_inst.py"), ("receive loop", "federation/transfer_inst.py")],
     ["objects received per host", "errors raised by send/receive"])

prop("C17", "Quantile summaries meet their rank guarantee",
     "For every sequence of inserted numbers and every quantile p in [0, 1], a quantile summary with relative error e answers with one of the inserted numbers, whose rank among the n inserted numbers lies within e*n (plus one) of p*n; the same holds for sparse summaries counting the implicit zeros, and after merging summaries (of different errors: within the largest of them). This holds whether or not the summary was compressed before the query and between further insertions, merging leaves the merged-in summary intact, values listed as abnormal are ignored, and quantiles outside [0, 1] are rejected.",
     ["inputs", "histories"], "all insertion orders and value distributions (including more values than the buffer holds, duplicates, negative and zero values), errors, buffer sizes and merges",
     NOTEST + "no test uses quantile summaries",
     ["ml/feature/quantile_summaries.py"], [("buffer insertion, compression, merge, query", "ml/feature/quantile_summaries.py")],
     ["answers of query"])

prop("C18", "Binning is order preserving and consistent with its thresholds",
     "Fitting quantile binning yields for every selected column strictly increasing split points, fewer than the bin number, each within the range of the column's values (zero included for sparse data), and close to equal-frequency. Converting a table replaces every selected value by the number of split points below it, so that bin(v) <= b holds exactly when v <= split point b; the recorded zero bin is the bin of 0, unselected columns, record identities and labels stay as they are, and dense and sparse representations of the same data agree.",
     ["inputs", "configurations"], "all tables (dense and sparse, constant columns, ties, negative and zero values), bin numbers and column selections",
     NOTEST + "no test bins data",
     ["ml/feature/binning/quantile_binning.py", "ml/feature/binning/base_binning.py", "ml/feature/sparse_vector.py"],
     [("fit_split_points", "ml/feature/binning/quantile_binning.py"), ("convert_feature_to_bin", "ml/feature/binning/base_binning.py")],
     ["split points, converted table, zero bins"])

prop("C19", "Histograms count every record once",
     "For any assignment of records to nodes, the histogram of a node and feature holds per bin the exact sums of gradients and hessians and the number of the node's records whose value falls into that bin, records with an absent (zero) value being counted in the zero bin, and records at other nodes or finished leaves being counted nowhere; the accumulated histogram is its running sum over bins, whose last entry is the node total. This holds equally when gradients and hessians are ciphertexts, and features that are not valid for the tree stay empty.",
     ["inputs", "configurations"], "all binned tables, node assignments, node batches, feature subsets, plain and encrypted gradients",
     NOTEST + "no test builds a histogram",
     ["ml/tree/feateur_histogram.py"], [("zero-bin completion", "ml/tree/feateur_histogram.py"), ("accumulation", "ml/tree/feateur_histogram.py")],
     ["histograms returned"])

prop("C20", "Split search returns the best admissible split",
     "Given accumulated histograms, the guest's search returns the admissible (feature, bin) of greatest gain above the threshold together with its left sums, or none; the host's search lists every admissible (feature, bin) exactly once with its left sums and no other; and choosing between the guest's and the hosts' decrypted best splits returns the one of greatest gain, the guest's on a tie. Admissible means: a valid feature, enough records at the node, and at least the minimum leaf size on both sides.",
     ["inputs", "configurations"], "all histograms, feature subsets, limits, numbers of hosts and gains (including ties and no admissible split)",
     NOTEST + "no test searches for splits",
     ["ml/tree/splitter.py", "ml/tree/creterion.py", TG], [("find_split / find_split_host", "ml/tree/splitter.py"), ("merge_splitinfo", TG)],
     ["split information returned"])

prop("C21", "Gradients and hessians are the derivatives of the losses",
     "For every supported objective, the gradient reported for a label and score is the first derivative of the reported loss with respect to the score and the hessian the second derivative (for absolute error the sign, zero at zero, and one; for softmax the diagonal), for array and scalar scores alike. The reported loss of a table is the mean over its records, and the initial score is zero for classification, the mean label for regression and a median label for absolute error.",
     ["inputs"], "all labels, scores, table sizes and loss parameters in the range where the loss is finite",
     NOTEST + "no test uses a loss",
     ["ml/loss/cross_entropy.py", "ml/loss/regression_loss.py"], [("compute_loss/grad/hess/initialize", "ml/loss/regression_loss.py"), ("compute_loss/grad/hess/initialize", "ml/loss/cross_entropy.py")],
     ["values returned by the loss objects"])

prop("C22", "Activations and numeric helpers are accurate and safe",
     "Sigmoid, softmax, tanh and softplus agree with their mathematical definitions for every finite input, stay in their ranges (softmax sums to one) and never overflow or return NaN; log_logistic is the logarithm of sigmoid, hard sigmoid and softsign agree with their definitions. The dot product, p-norm and reduce-add helpers agree with the exact mathematical result up to their documented tolerance (components of absolute value below 1e-5 may be dropped from a dot product), and the integer helpers (modular power, inverse, integer root, prime generation) are exact.",
     ["inputs"], "all finite scalars and arrays; all integers in the documented domain",
     NOTEST + "no test uses these helpers",
     ["ml/optim/activation.py", "ml/utils/fate_operator.py", "ml/secureprotol/gmpy_math.py"],
     [("activation functions", "ml/optim/activation.py"), ("dot, norm, reduce_add", "ml/utils/fate_operator.py")],
     ["values returned"])

prop("C23", "Labels are validated and mapped one to one",
     "Label checking accepts exactly the label sets the task supports (classification: at most one thousand distinct values; regression: numeric labels), rejects all others with an error, and returns exactly the distinct labels and their number. Training with any accepted labels - ints in any range, negative, floats, strings - is equivalent to training with the labels renamed 0..k-1 in sorted order: predictions come back as the caller's own labels and scores are the same.",
     ["inputs"], "all label multisets: numbers of classes, types, offsets and orders",
     NOTEST + "no test trains with labels",
     ["ml/utils/classfiy_label_checker.py", BG], [("validate_y", "ml/utils/classfiy_label_checker.py"), ("class mapping", BG)],
     ["checker results", "labels in prediction results"])

prop("C24", "Parameters are validated and configurations applied faithfully",
     "Every parameter object accepts all values its documentation allows and rejects, with an error, values of the wrong type or outside the documented range, accepting the names of methods, modes, criteria, objectives, roles and evaluation types in any letter case and normalising them; checking an accepted object again changes nothing. Loading a configuration puts every given value in the parameter object it names, leaves every other parameter at its default, does not modify the configuration, and separate parameter objects never share state.",
     ["inputs", "configurations"], "all parameter classes, fields, values (valid, boundary, wrong type, out of range) and nested configurations",
     NOTEST + "no test touches parameters",
     ["ml/param/base_param.py", "ml/param/boosting_tree_param.py", "ml/param/encrypt_param.py", "ml/param/predict_param.py", "ml/param/encrypted_mode_calculation_param.py", "ml/param/feature_binning_param.py", "ml/param/cross_validation_param.py", "ml/param/evaluation_param.py", "ml/utils/param_extract.py"],
     [("check methods", "ml/param"), ("configuration parser", "ml/utils/param_extract.py")],
     ["acceptance or rejection", "field values after loading"])

prop("C25", "Loading and splitting data keeps the parties aligned",
     "Reading a CSV file returns its header, ids, feature values and labels row by row, unchanged and in file order, however values are formatted and whether the label column is present or not. Splitting data into training and test parts yields a partition of the records of the requested proportion, and the guest's and every host's split select the same records in the same order, because both depend only on the number of records, the proportion and the seed.",
     ["inputs"], "all tables, number formats, proportions, seeds and record counts",
     "No test reads a file or splits data; alignment is a relation between two programs over all sizes",
     ["i_o/utils.py", "guest.py", "host.py"], [("CSV readers", "i_o/utils.py"), ("data_split", "guest.py"), ("data_split", "host.py")],
     ["values returned by the readers and splitters"])

prop("C26", "Column statistics are correct",
     "For every dense table and column selection, the reported mean, variance, standard deviation, minimum and maximum of each column are those of the column's values that are not listed as abnormal, the median and quantile points are values of the column whose rank is within the summaries' error, and merging statistics of two tables equals the statistics of the concatenated table. Only the selected columns are reported.",
     ["inputs"], "all tables, magnitudes (mean not extremely large against the spread), abnormal lists and column selections",
     NOTEST + "no test computes statistics",
     ["ml/statistic/statics.py", "ml/statistic/data_overview.py", "ml/utils/abnormal_detection.py"],
     [("single-pass sums", "ml/statistic/statics.py"), ("median through binning", "ml/statistic/statics.py")],
     ["values returned by the summary getters"])

prop("C27", "The component runner executes the stages asked for",
     "Running a model component with a set of data tables executes exactly the stages the arguments ask for, once each and with the right table and stage name: training (and evaluation data) leads to fit and then prediction on train and evaluation data, test data only to prediction, and parameters from the configuration reach the component before any stage. The output data of the run contains the predictions of every predicted table, marked with the stage they came from. Metrics a component reports reach its tracker once, under the name of the metric, qualified by fold and curve during cross validation.",
     ["inputs", "configurations", "histories"], "all combinations of train, evaluation and test tables, configurations and flags",
     NOTEST + "no test runs a component",
     ["ml/model_base.py", "ml/utils/param_extract.py"], [("run / _run_data", "ml/model_base.py")],
     ["calls received by the component and its tracker, and its output data"])

prop("C28", "Boosting improves or stops",
     "Regression training works end to end for every supported objective and gives for each record the initial score plus the shrunken leaf weights. With squared error and a learning rate of at most one the recorded training loss never increases from round to round; early stopping ends training at the first round whose loss differs from the previous round's by less than the tolerance and otherwise exactly the requested number of rounds is trained; convergence tests report convergence exactly as documented for every loss sequence.",
     ["inputs", "histories", "configurations"], "all regression data sets, objectives, learning rates, tolerances and loss sequences",
     NOTEST + "no test boosts",
     [BG, "ml/optim/convergence.py", "ml/loss/regression_loss.py"], [("boosting loop", BG), ("convergence tests", "ml/optim/convergence.py")],
     ["loss history, number of trees, predictions"])

prop("C29", "The command-line programs train and predict together",
     "Running the guest program and the host programs on vertically split CSV files of the same records makes all of them finish successfully, in whatever order they start connecting once the guest listens, and the accuracy the guest prints is the accuracy, on the held-out part of the split, of a federated model trained on the training part with default parameters. A file argument, number of hosts, proportion or host index given on the command line takes effect as documented, and a task type other than CLASSIFICATION is refused.",
     ["inputs", "schedules", "configurations"], "all CSV data sets, numbers of hosts, proportions, indices and start orders",
     "No test starts the programs",
     ["guest.py", "host.py", "federation/transfer_inst.py", "i_o/utils.py"], [("entry points", "guest.py"), ("entry points", "host.py")],
     ["exit status and printed accuracy"])

prop("C30", "Column sampling restricts trees to the sampled columns only",
     "When the column sampling rate is r, every tree draws, for each party of n columns, its own random choice of max(1, int(r*n)) of them, and is exactly the tree plain training would give on the chosen columns: it never splits on a column that was not drawn, never overlooks one that was, and neither leaf weights, losses, scores nor predictions are otherwise affected. Every column has the same chance of being drawn for every tree, at the guest, at each host and in the local trainer; at rate 1 all columns are used.",
     ["inputs", "configurations"], "all data sets, column partitions, rates in [0, 1] and outcomes of the draw",
     NOTEST + "no test samples columns, and a draw shows only in the trees it leads to",
     [BG, BH, "xgboost/hetero_secureboosting_tree_guest.py", "ml/tree/splitter.py", "ml/tree/feateur_histogram.py"],
     [("sample_valid_features", BG), ("sample_valid_features", BH), ("columns left out of histograms", "ml/tree/feateur_histogram.py"), ("columns left out of the split search", "ml/tree/splitter.py")],
     ["trees of guest and hosts after fit", "scores, losses and predictions"])

prop("C31", "Results do not depend on how tables are partitioned",
     "Everything the library computes from a table per partition and then combines (split points of the bins, statistics and quantiles, label sets, gradient histograms, sums, and with them whole federated and local training and prediction) is the same whatever partitions the records lie in, including empty ones, whatever order the partitions are visited in, and when parties partition their tables differently: sums, counts, extremes, label sets and trees are those of the whole table, quantiles stay within twice the documented rank error.",
     ["inputs", "configurations"], "all tables, numbers of partitions and assignments of records to partitions",
     NOTEST + "the table class that comes with the project has one partition only, so no test combines two",
     ["computing/_computing.py", "ml/feature/binning/quantile_binning.py", "ml/feature/quantile_summaries.py", "ml/statistic/statics.py", "ml/tree/feateur_histogram.py", "ml/utils/classfiy_label_checker.py"],
     [("merge_summary_dict", "ml/feature/binning/quantile_binning.py"), ("merge", "ml/feature/quantile_summaries.py"), ("aggregate_statics", "ml/statistic/statics.py"), ("aggregate_histogram", "ml/tree/feateur_histogram.py")],
     ["split points, statistics, label sets, trees and predictions"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as fh:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        assert set(p["quantifier"]["over"]) <= {"schedules", "crash_points", "inputs", "programs", "histories", "configurations", "fault_sequences"}
        fh.write(json.dumps(p) + "\n")
print(len(P))
