"""The properties (written to properties.jsonl by gen.py)."""
META = []


def P(id, title, statement, text, why, files, mech, over=("inputs",), observe=(), state=()):
    META.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                     anchors=dict(files=list(files), mechanism=[dict(name=n, where=w) for n, w in mech],
                                  state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=list(observe), hook_needed=None)))


TK = "src/learning/toolkit/"
TR = "src/data/transforms/"

P("P01", "Activation functions, their gradients and inverses agree",
  "Sigmoid, Linear, Exp and Tanh compute the mathematical function they are named after, and the gradient at any input is the derivative of that function there. The gradient computed from the function's output equals the gradient at the input that produced it. Applying the inverse undoes the function, and applying the function undoes the inverse, wherever both are defined.",
  "every real input of every built-in activation function", "Tests evaluate a few points to a tolerance; a wrong formula that agrees there (or an inverse wrong on part of the range) passes.",
  [TK + "activ_fn.rs"], [("ActivationFunc impls for Sigmoid, Linear, Exp, Tanh", TK + "activ_fn.rs")], observe=["func, func_grad, func_grad_from_output, func_inv"])

P("P02", "Cost gradients are the derivatives of the costs",
  "Mean squared error is the sum of the squared differences over twice the number of samples, and cross entropy is minus the average over samples of the summed t*ln(o) + (1-t)*ln(1-o), for matrices (a sample per row) and for vectors (a sample per element). The gradient of a cost has the shape of the outputs and each entry is the partial derivative of that cost with respect to that output.",
  "every output/target pair of equal shape (outputs strictly inside (0,1) for cross entropy)", "No test compares a cost gradient with its cost; the relation must hold for every shape and value.",
  [TK + "cost_fn.rs"], [("CostFunc impls for MeanSqError and CrossEntropyError", TK + "cost_fn.rs")], observe=["cost, grad_cost"])

P("P03", "Regularization cost and gradient follow their definitions",
  "With n the number of rows of the weights, L1 regularization costs a*sum|w|/(2n), L2 costs a*sum(w^2)/(2n), elastic net is the sum of its L1 and L2 parts and no regularization costs 0. The gradient has the shape of the weights and is the derivative of that cost wherever it is differentiable.",
  "every weight matrix and every regularization strength", "Tests check one matrix and pin the values the code returns rather than the relation between cost and gradient.",
  [TK + "regularization.rs"], [("reg_cost, reg_grad", TK + "regularization.rs")], observe=["Regularization::reg_cost, reg_grad"])

P("P04", "Kernels compute their stated formula and are symmetric",
  "Each built-in kernel (linear, polynomial, squared exponential, exponential, hyperbolic tangent, multiquadric and rational quadratic) returns the value of its documented formula for the two vectors and its parameters, and gives the same value when the vectors are swapped. A sum or product of kernels returns the sum or product of the values of its parts.",
  "every pair of vectors and every parameter value", "Tests evaluate one pair of vectors per kernel.",
  [TK + "kernel.rs"], [("Kernel impls", TK + "kernel.rs")], observe=["Kernel::kernel"])

P("P05", "Distributions: pdf, log-pdf, cdf and sampling are consistent",
  "For the exponential and Gaussian distributions the pdf is the documented density, the log-pdf is its logarithm and the cdf is monotone, stays within [0,1] and is consistent with the pdf (exactly for the exponential; for the Gaussian it is 1/2 at the mean, symmetric, and follows its documented closed-form approximation). The exponential's functions panic exactly on negative inputs. A Gaussian sample is mean + standard deviation * a standard normal draw and an exponential sample is a unit exponential draw / lambda, whichever constructor or sampling method is used.",
  "every real input, mean, and positive variance, standard deviation or rate", "Tests compare a few points against rounded constants; parametrisation mistakes (variance for deviation, rate for scale) agree on the default parameters.",
  ["src/stats/dist/gaussian.rs", "src/stats/dist/exponential.rs"], [("Distribution impls", "src/stats/dist/gaussian.rs"), ("Sample/IndependentSample impls", "src/stats/dist/exponential.rs")], observe=["pdf, logpdf, cdf, sample, ind_sample"])

P("P06", "MinMax scaling maps each column exactly onto the range and back",
  "After fitting, every column of the transformed fitting data spans exactly the requested interval [low, high], each value is mapped by the same increasing affine map of its column, and inverting the transform returns the original values, for unseen data as well. A column that cannot be scaled (constant, or containing non-finite values) is refused with an error, as is data with a different number of columns.",
  "every data matrix and every interval low < high", "Tests use one or two small matrices; extremes in unusual positions, several columns and unseen rows are not covered.",
  [TR + "minmax.rs"], [("MinMaxFitter::fit", TR + "minmax.rs"), ("MinMaxScaler transform/inv_transform", TR + "minmax.rs")], observe=["transform and inv_transform outputs, fit errors"])

P("P07", "Standardizing gives each column the requested mean and deviation",
  "After fitting, every column of the transformed fitting data has exactly the requested mean and sample standard deviation, each value is mapped by one affine map per column, and inverting the transform returns the original values, for unseen data as well. A single row, non-finite data, or data with a different number of columns is refused with an error, and data with a constant column never produces a non-finite value.",
  "every data matrix with at least two rows, every mean and deviation", "Tests use fixed matrices; no test has a constant column.",
  [TR + "standardize.rs"], [("StandardizerFitter::fit", TR + "standardize.rs"), ("Standardizer transform/inv_transform", TR + "standardize.rs")], observe=["transform and inv_transform outputs, fit errors"])

P("P08", "Normalizing gives every row unit norm and keeps its direction",
  "Every non-zero row of normalized data has norm 1 under the chosen norm (Euclidean by default) and is the original row times one positive factor; a zero row stays zero. Data containing non-finite values is refused with an error.",
  "every data matrix, for the Euclidean and the L1 norm", "Tests use one matrix per case; which row is divided by which norm is only visible with several distinct rows.",
  [TR + "normalize.rs"], [("Normalizer::transform", TR + "normalize.rs")], observe=["transform output or error"])

P("P13", "The confusion matrix counts every sample once, in the right cell",
  "Entry (i,j) of the confusion matrix is the number of samples whose target is the i-th label and whose prediction is the j-th label. Without explicit labels the labels are the distinct values found in predictions or targets, in increasing order; with explicit labels samples outside them are ignored and duplicate labels are refused with a panic.",
  "every sequence of predictions and targets, every label list", "Tests use two fixed examples.",
  ["src/analysis/confusion_matrix.rs"], [("confusion_matrix", "src/analysis/confusion_matrix.rs")], observe=["the returned matrix"])

P("P14", "Accuracy, precision, recall and F1 equal their definitions",
  "Accuracy is the fraction of positions where prediction and target agree, and row accuracy is the fraction of rows that agree in every column. For labels 0 and 1, precision is TP/(TP+FP), recall is TP/(TP+FN) and F1 is 2*TP/(2*TP+FP+FN) whenever the denominator is not zero. Precision, recall and F1 panic if a prediction or target is neither 0 nor 1, and inputs of different lengths are refused with a panic.",
  "every prediction/target sequence", "Tests use fixed vectors; swapped false positives and negatives agree on symmetric examples.",
  ["src/analysis/score.rs"], [("accuracy, row_accuracy, precision, recall, f1", "src/analysis/score.rs")], observe=["returned scores"])

P("P15", "The mean squared error score is the negated average squared error",
  "The score of predictions against targets is minus the sum of squared differences divided by the number of samples (rows), is never positive, is zero exactly when predictions equal targets and does not change when the two are swapped.",
  "every pair of equally shaped matrices", "Tests use one example with a single column.",
  ["src/analysis/score.rs"], [("neg_mean_squared_error", "src/analysis/score.rs")], observe=["returned score"])

P("P09", "The Shuffler returns a uniformly random permutation of the rows",
  "The Shuffler returns a matrix of the same shape whose rows are exactly the rows of its input, each moved as a whole and each present once, and every order of the rows is equally likely under a uniform random number generator.",
  "every matrix size and every sequence of random draws", "A test with one seed sees one permutation; bias and lost or duplicated rows need particular draws.",
  [TR + "shuffle.rs"], [("Shuffler::transform", TR + "shuffle.rs")], over=("inputs", "random draws"), observe=["transform output"])

P("P10", "Fisher-Yates shuffles return uniformly random permutations",
  "Both Fisher-Yates shuffles (the copying one and the in-place one) produce exactly the elements of their input, each once, and every order is equally likely under a uniform random number generator.",
  "every slice length and every sequence of random draws", "Tests check membership on one run; bias or a lost element depends on the draws.",
  [TK + "rand_utils.rs"], [("fisher_yates, in_place_fisher_yates", TK + "rand_utils.rs")], over=("inputs", "random draws"), observe=["returned vector, slice contents"])

P("P11", "Reservoir sampling draws distinct elements uniformly",
  "A reservoir sample of size k from a pool consists of k elements taken from k different positions of the pool, every set of k positions is equally likely under a uniform random number generator, and a sample larger than the pool is refused with a panic.",
  "every pool length, sample size and sequence of random draws", "Tests look at the length of one sample; uniformity is a statement over all draws.",
  [TK + "rand_utils.rs"], [("reservoir_sample", TK + "rand_utils.rs")], over=("inputs", "random draws"), observe=["returned sample"])

P("P12", "k-fold validation tests every sample once, on a model trained without it",
  "k-fold validation returns k scores in fold order. The test folds partition the randomly shuffled samples (every order is possible) with sizes differing by at most one; before each fold the model is trained on exactly the samples outside it, and inputs stay paired with their targets in training, testing and scoring. An error from the model is returned, and k < 2, k greater than the number of samples, or different numbers of inputs and targets are refused with a panic.",
  "every number of samples and folds, every shuffle, every data", "Tests check the fold iterator on fixed sizes; pairing and leakage depend on the shuffle.",
  ["src/analysis/cross_validation.rs"], [("k_fold_validate, Folds", "src/analysis/cross_validation.rs")], over=("inputs", "random draws"), observe=["calls made to the model and score, returned scores"])

P("P16", "Logistic regression fits and predicts with its stated model",
  "Training hands the optimizer the inputs with an intercept column of ones in front, the unchanged targets and a finite start with one value per feature plus the intercept. The cost it exposes is the mean cross entropy of the sigmoid of the linear predictor, and the gradient is the derivative of that cost. Prediction is the sigmoid of intercept plus x.b with the trained parameters, and predicting before training is an error.",
  "every input, target and parameter value", "Tests train on separable toy data; a gradient that is merely a descent direction passes.",
  ["src/learning/logistic_reg.rs"], [("LogisticRegressor train/predict", "src/learning/logistic_reg.rs"), ("BaseLogisticRegressor::compute_grad", "src/learning/logistic_reg.rs")], observe=["parameters(), predict, the calls made to the optimizer"])

P("P17", "Linear regression solves least squares exactly",
  "After training, the residuals of the fitting data sum to zero and are orthogonal to every feature (the parameters are the least-squares solution with an intercept); training fails with an error exactly when the inputs with intercept are rank deficient. Prediction is intercept plus x.b. The cost it exposes to optimizers is half the mean squared residual and the gradient is its derivative. Predicting before training is an error.",
  "every input matrix and target vector", "Tests fit one line; weights that only agree with least squares on exact data pass.",
  ["src/learning/lin_reg.rs"], [("LinRegressor train/predict/compute_grad", "src/learning/lin_reg.rs")], observe=["parameters(), predict, compute_grad"])

P("P18", "Generalised linear models train to the maximum likelihood estimate",
  "The link, inverse link, variance and working weights of each family are those of its distribution; by default the working weights are 1/(V(mu)*g'(mu)^2) and the adjustment is g'(mu)*(y-mu). The maximum likelihood estimate is a fixed point of training, and training reaches it whenever the link is affine and the working weights do not depend on the mean (such as the normal family). Prediction is the inverse link of intercept plus x.b; predicting before training, inputs and targets of different lengths, and training on inputs that (with the intercept) are rank deficient are errors.",
  "every data set for which the estimate exists", "Tests only run training on toy data without looking at the parameters.",
  ["src/learning/glm.rs"], [("GenLinearModel train/predict", "src/learning/glm.rs"), ("Criterion and LinkFunc impls", "src/learning/glm.rs")], observe=["predict, Criterion methods"])

OPT = "src/learning/optim/"

P("P19", "Gradient descent optimizers follow their update rules",
  "With g the gradient at the current parameters x: gradient descent does x -= alpha*g; stochastic gradient descent with momentum v' = mu*g + alpha*v, x -= (1+alpha)*v' - alpha*v; AdaGrad s += g^2, x -= alpha*g/(tau+sqrt(s)); RMSProp c = decay*c + (1-decay)*g^2, x -= rate*g/sqrt(c+epsilon), elementwise from zero state. The stochastic ones visit every sample exactly once per pass, paired with its target, in an order drawn anew for each pass (every order is possible). Optimizing stops before the given number of iterations only if the (mean) cost changed by less than 1e-20 from the previous iteration. Parameters out of range are refused with a panic.",
  "every model (sequence of costs and gradients), start, hyper parameters and shuffle", "Tests minimise x^2 only, where many wrong updates also converge.",
  [OPT + "grad_desc.rs"], [("OptimAlgorithm impls", OPT + "grad_desc.rs")], over=("inputs", "random draws", "sequences of costs and gradients"), observe=["parameters at which gradients are requested, samples passed, returned parameters"])

P("P20", "Conjugate gradients never return a worse point than the start",
  "Whatever costs and gradients the model reports, the conjugate gradient optimizer returns parameters at which it has evaluated the model, of the length of the start, and their cost is not greater than the cost at the start. It always asks the model about its full inputs and targets.",
  "every model (sequence of costs and gradients) and start", "Tests minimise x^2; the line search has many branches that a well-behaved quadratic never takes.",
  [OPT + "fmincg.rs"], [("OptimAlgorithm for ConjugateGD", OPT + "fmincg.rs")], over=("inputs", "sequences of costs and gradients"), observe=["parameters at which gradients are requested, returned parameters"])

P("P21", "A neural network computes the composition of its layers",
  "Prediction applies the layers in the order they were added: a linear layer with a bias computes [1, x]*W, without one x*W, and an activation layer applies its function to every element; mlp(sizes, f) is, for every pair of consecutive sizes, a linear layer with a bias followed by f. Weights are the row-major weights of the layers in order, get_net_weights returns those of the asked layer. Training hands the optimizer the inputs and targets unchanged with the current weights as the start and stores the result. Inputs whose width does not fit are an error.",
  "every architecture, input and weights", "Tests train XOR-like examples on seeded initial weights and look at rounded predictions.",
  ["src/learning/nnet/mod.rs", "src/learning/nnet/net_layer.rs"], [("NeuralNet, BaseNeuralNet::forward_prop", "src/learning/nnet/mod.rs"), ("NetLayer impls", "src/learning/nnet/net_layer.rs")], observe=["predict, get_net_weights, calls to the optimizer"])

P("P22", "Backpropagation returns the derivative of the training cost",
  "The cost a network exposes is the criterion's cost of the network's output (cross entropy for BCECriterion, mean squared error for MSECriterion) plus the criterion's regularization cost of all the weights as one column, and the gradient it exposes has one entry per weight: the partial derivative of that cost with respect to that weight.",
  "every architecture, input, target, weights and regularization", "No test compares the gradient with the cost; training still makes progress with a wrong gradient.",
  ["src/learning/nnet/mod.rs", "src/learning/nnet/net_layer.rs"], [("BaseNeuralNet::compute_grad", "src/learning/nnet/mod.rs"), ("back_input, back_params", "src/learning/nnet/net_layer.rs"), ("Criterion", "src/learning/nnet/mod.rs")], observe=["compute_grad (through the optimizer)"])

P("P23", "Gaussian processes return the exact posterior",
  "With K the kernel matrix of the training inputs plus noise on its diagonal, the prediction for new points is m(x*) + k(x*,X) K^-1 (y - m(X)), which is also the mean get_posterior returns, and its covariance is k(x*,x*) - k(x*,X) K^-1 k(X,x*). Training is an error exactly when K is not positive definite. Without noise the posterior mean passes through the training targets, and the default mean function is zero. Predicting before training, or for points with a different number of columns, is an error.",
  "every kernel, mean function, noise, training and test points", "Tests fit one default process and look at the sign or order of a prediction.",
  ["src/learning/gp.rs"], [("GaussianProcess train/predict/get_posterior", "src/learning/gp.rs"), ("ConstMean", "src/learning/gp.rs")], observe=["predict, get_posterior, train errors"])

P("P24", "The SVM runs kernelised Pegasos and predicts the sign",
  "Training starts from zero coefficients alpha; at step t = 1, 2, ..., optim_iters one training sample i is drawn at random (each is possible) and alpha_i grows by 1 exactly if y_i * sum_j alpha_j y_j k(x_i, x_j) / (lambda * t) < 1, where k is the kernel of the inputs with an intercept column of ones in front. The prediction for x is 1 where sum_j alpha_j y_j k(x, x_j) is positive and -1 where it is negative. Predicting before training, or for points with a different number of columns, is an error.",
  "every kernel, data, lambda, number of steps and sequence of draws", "Tests train one separable example; a decision value with the wrong coefficients classifies it as well.",
  ["src/learning/svm.rs"], [("SVM train/predict", "src/learning/svm.rs")], over=("inputs", "random draws"), observe=["predict"])

KNN = "src/learning/knn/"

P("P25", "Nearest neighbour searches return the k nearest rows",
  "Searching for the k nearest neighbours of a point, for k from 1 to the number of rows, returns k different rows of the data with their Euclidean distances to the point in increasing order, and no other row is closer than the last of them. This holds for brute force search, kd-trees and ball-trees of any leaf size, for any data including repeated rows. Searching before building is an error.",
  "every data set, query point, k and leaf size", "Tests search a few points in small fixed data; a wrong pruning rule needs a particular geometry to lose a neighbour.",
  [KNN + "mod.rs", KNN + "brute_force.rs", KNN + "binary_tree.rs"], [("KNearest", KNN + "mod.rs"), ("BinaryTree build/search, BinarySplit impls", KNN + "binary_tree.rs"), ("BruteForce::search", KNN + "brute_force.rs")], observe=["search results"])

P("P26", "The k-NN classifier predicts the majority label of the neighbours",
  "Training builds the searcher on the inputs; each row is classified with the most frequent label among the targets of the k neighbours that the searcher returns for it (the smallest label among equally frequent ones), in the order of the rows. Inputs and targets of different lengths, fewer rows than k, and predicting before training are errors, and an error of the searcher is returned.",
  "every data set, labelling and set of neighbours", "Tests classify a few points with two labels.",
  [KNN + "mod.rs"], [("KNNClassifier train/predict, freq", KNN + "mod.rs")], observe=["predict, calls to the searcher"])

P("P27", "K-means alternates closest-centroid assignment and mean updates",
  "From the initializer's centroids, each iteration assigns every sample to its closest centroid in Euclidean distance (the first of equally close ones) and moves every centroid to the mean of its samples; a centroid without samples stays. It runs the given number of iterations unless the summed squared distance changed by less than 1e-14 from the previous iteration (from 0 at the first). Prediction is the index of the closest centroid. Forgy starts from k different random rows (any k rows are possible), random partition from the means of k non-empty parts (the first k samples start one part each, any part is possible for the others), k-means++ from a random row (any is possible) and then rows drawn in proportion to their squared distance to the closest chosen one. More clusters than samples, initial centroids of the wrong shape, an error of the initializer, and predicting before training are errors.",
  "every data set, initial centroids and random draws", "Tests cluster one tiny data set and check only that training succeeds.",
  ["src/learning/k_means.rs"], [("KMeansClassifier train/predict", "src/learning/k_means.rs"), ("Initializer impls, sample_discretely", "src/learning/k_means.rs")], over=("inputs", "random draws"), observe=["centroids(), predict, init_centroids"])

P("P28", "DBSCAN finds exactly the density-connected clusters",
  "Two samples are neighbours if they are less than eps apart, and a sample with at least min_points neighbours (itself included) is a core sample. After training two core samples have the same cluster exactly if a chain of neighbouring core samples connects them, every other sample with a core sample as neighbour is in the cluster of such a core sample, all remaining samples are noise (None), and clusters are numbered from 0 without gaps. A predictive model gives a new point the cluster of its closest training sample if that is less than eps away, and None otherwise. Predicting with a model that is not predictive, not trained, or not trained while predictive is an error; only the last training counts.",
  "every data set, eps and min_points", "Tests use two well separated groups; border points and chains need particular orders and distances.",
  ["src/learning/dbscan.rs"], [("DBSCAN train/expand_cluster/region_query/predict", "src/learning/dbscan.rs")], observe=["clusters(), predict"])

P("P29", "Gaussian mixtures are trained by expectation maximisation",
  "Prediction gives, for every sample, the posterior probability of each component: weight * exp(-(x-mu) S^-1 (x-mu)^T / 2) / sqrt(det S), divided by the sum over components. Training starts from k different random rows as means (the given normalised or equal weights; the sample covariance unless diagonal) and each iteration replaces weights, means and covariances by the membership-weighted ones of all samples: the full covariance, with the regularization constant added to its diagonal, or only its diagonal. It runs the given number of iterations unless the log likelihood changed by less than 1e-15 from the previous iteration. Weights of the wrong number, negative or all zero, a single row of data, a singular covariance, and predicting before training are errors.",
  "every data set, positive mixture weights, covariance option and random draws", "Tests only check the errors of the constructor and the accessors of an untrained model.",
  ["src/learning/gmm.rs"], [("GaussianMixtureModel train/predict, membership_weights, update_params", "src/learning/gmm.rs")], over=("inputs", "random draws"), observe=["means(), covariances(), mixture_weights(), predict"])

P("P30", "Naive Bayes fits the class distributions and predicts the most probable",
  "Training takes the class of a row as the first column of its target equal to 1, sets the priors to the shares of the classes and fits every class on its own rows. The log probability of a class is the log of its prior plus, summed over features, the log of the normal density with the class mean and sample variance (Gaussian), x log p + (1-x) log(1-p) with p = (sum+1)/(rows+2) (Bernoulli), or x log p with p = (sum+1)/(total+features) (Multinomial). Prediction marks the class of greatest log probability, the first of equal ones, and never a class without training rows. Targets without a class, inputs and targets of different lengths, a Gaussian class with one row, and predicting before training are errors; a refused training changes nothing.",
  "every data set, class assignment and point", "Tests predict the training data of three well separated fixed examples.",
  ["src/learning/naive_bayes.rs"], [("NaiveBayes train/predict/get_log_probs", "src/learning/naive_bayes.rs"), ("Distribution impls", "src/learning/naive_bayes.rs")], observe=["get_log_probs, predict, class_prior, cluster_count"])

P("P31", "PCA projects on orthonormal directions of decreasing variance",
  "After training, the components are orthonormal and the scores of the training data are uncorrelated, with the components in order of decreasing sum of squared scores. The scores of a point are its products with the components, after subtracting the column means of the training data if the model centers. Components are the columns of the component matrix, or its rows if the data had more columns than rows; the first n are kept if n is given. Earlier trainings have no effect. Predicting or asking for components before training, points with a different number of columns, and more components than columns or rows are errors.",
  "every data set and point", "Tests compare scores of three fixed data sets.",
  ["src/learning/pca.rs"], [("PCA train/predict/components, centering", "src/learning/pca.rs")], observe=["components(), predict"])

P("P32", "A model is what its last successful training made it",
  "Training a linear, logistic or generalised linear regression, Gaussian process, SVM, Naive Bayes, nearest neighbour classifier (with any of its searches), k-means, DBSCAN or PCA model again gives exactly the model that a new one with the same settings becomes by that last training alone (for the same random draws): nothing of an earlier training is left, also when the two differ in the number of rows, columns or classes. A training that returns an error leaves the predictions, parameters and other answers of the model as they were. Predicting never changes a model.",
  "every pair of data sets, every query and every draw", "Tests train each model once and never after a refused training.",
  ["src/learning/" + f for f in ("lin_reg.rs", "logistic_reg.rs", "glm.rs", "gp.rs", "svm.rs", "naive_bayes.rs", "knn/mod.rs", "knn/binary_tree.rs", "knn/brute_force.rs", "k_means.rs", "dbscan.rs", "pca.rs")],
  [("SupModel::train / UnSupModel::train of every model", "src/learning/"), ("KNearestSearch::build", "src/learning/knn/")],
  over=("inputs", "histories of trainings and predictions", "random draws"), observe=["predict after two trainings, or after a refused one"])

P("P33", "A prediction depends only on its own row",
  "Whatever model or fitted transformer it is asked of, the result for a row of the input is the same alone and in any batch of rows, at whatever position and next to whatever other rows, and there is exactly one result per row, in the order of the rows. This holds for the predictions of every regression, classification, clustering and mixture model, of PCA and of a neural network, for the means and variances of a Gaussian process posterior, for the log probabilities of Naive Bayes, and for transforming (and inverting) rows with a fitted MinMax or Standardizer transformer or with the Normalizer.",
  "every trained model, every batch of rows", "Tests predict one fixed batch.",
  ["src/learning/" + f for f in ("lin_reg.rs", "logistic_reg.rs", "glm.rs", "gp.rs", "svm.rs", "naive_bayes.rs", "knn/mod.rs", "k_means.rs", "dbscan.rs", "pca.rs", "gmm.rs", "nnet/mod.rs")] + [TR + f for f in ("minmax.rs", "standardize.rs", "normalize.rs")],
  [("predict of every model", "src/learning/"), ("transform and inv_transform", TR)], observe=["predict on batches of rows"])

P("P34", "Training does not depend on the order of the samples",
  "Permuting the training samples together with their targets gives the same model (in exact arithmetic): the same acceptance or refusal, the same parameters and the same predictions, for linear regression, logistic regression with batch gradient descent, generalised linear models, Gaussian processes, Naive Bayes, MinMax and Standardizer transformers, k-means started from given centroids, nearest neighbour classification with any search when no two rows are equally far from the query, and, up to the numbering of its clusters, DBSCAN when no sample is a border point.",
  "every data set and permutation of its rows", "Tests train on one fixed order.",
  ["src/learning/" + f for f in ("lin_reg.rs", "logistic_reg.rs", "glm.rs", "gp.rs", "naive_bayes.rs", "knn/mod.rs", "knn/binary_tree.rs", "k_means.rs", "dbscan.rs")] + [TR + f for f in ("minmax.rs", "standardize.rs")],
  [("SupModel::train / UnSupModel::train", "src/learning/"), ("TransformFitter::fit", TR)], over=("inputs", "orders of the samples"), observe=["predict after training on permuted rows"])

P("P35", "Models do not depend on the order of the features",
  "Permuting the columns of the training inputs and, in the same way, of the points asked later gives the same predictions (in exact arithmetic and for the same random draws) and the same acceptance or refusal, for linear, logistic and generalised linear regression, Gaussian processes and SVMs (the kernels do not depend on it), Naive Bayes (log probabilities, priors), k-means started from the same points, DBSCAN, Gaussian mixtures, and nearest neighbour classification with any search when no two rows are equally far from the query. Parameters, centroids, and the columns that MinMax, Standardizer and Normalizer return are permuted in that same way.",
  "every data set, query and permutation of the features", "Tests train on one fixed order, most of them on a single feature.",
  ["src/learning/" + f for f in ("lin_reg.rs", "logistic_reg.rs", "glm.rs", "gp.rs", "svm.rs", "naive_bayes.rs", "knn/mod.rs", "knn/binary_tree.rs", "k_means.rs", "dbscan.rs", "gmm.rs")] + [TR + f for f in ("minmax.rs", "standardize.rs", "normalize.rs")],
  [("train and predict of every model", "src/learning/"), ("TransformFitter::fit, transform", TR)], over=("inputs", "orders of the features"), observe=["predict after training on permuted columns"])

P("P36", "Defaults behave as documented",
  "What is built without settings behaves, for every input, as what is built with the settings its documentation states: GradientDesc (0.3, 100 iterations), StochasticGD (0.1, 0.1, 20), RMSProp (0.01, 0.9, 1e-5, 50), ConjugateGD (rho 0.01, sig 0.5, int 0.1, ext 3, max 20, ratio 100, 100 iterations); every kernel; the standard normal and the unit exponential distribution; MinMax (0 to 1), Standardizer (0, 1), Normalizer (Euclidean); DBSCAN (eps 0.5, 5 points, not predictive); the nearest neighbour classifier (5 neighbours, k-d tree); SVM (squared exponential kernel, lambda 0.3, 100 iterations); k-means (100 iterations, k-means++); Gaussian mixtures (equal weights, full covariances); Gaussian processes (squared exponential kernel, zero mean, no noise); cost criteria (no regularization); and neural networks (sigmoid layers).",
  "every input, cost and gradient", "Tests use defaults on fixed data with tolerances that many settings satisfy.",
  ["src/learning/optim/grad_desc.rs", "src/learning/optim/fmincg.rs", "src/learning/toolkit/kernel.rs", "src/learning/svm.rs", "src/learning/gp.rs", "src/learning/dbscan.rs", "src/learning/knn/mod.rs", "src/learning/k_means.rs", "src/learning/gmm.rs", "src/learning/nnet/mod.rs", "src/stats/dist/gaussian.rs", "src/stats/dist/exponential.rs"] + [TR + f for f in ("minmax.rs", "standardize.rs", "normalize.rs")],
  [("Default implementations and short constructors", "src/")], observe=["what defaults return against what explicit settings return"])
