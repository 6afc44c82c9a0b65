"""Which harness instances decide which property, with their bounds."""


def I(h, covers=("end",), tier="quick", time=None, check_ms=None, opts=(), must=(), **params):
    """must: outcomes the property says are possible; not reaching one in a complete exploration is a violation"""
    return dict(h=h, params=params, covers=covers, tier=tier, time=time, check_ms=check_ms, opts=opts, must=must)


def T(h, **k):
    return I(h, tier="thorough", **k)


from itertools import permutations, product

PROPS = {}


def prop(id, functions, bounds, instances, assumptions=(), **kw):
    PROPS[id] = dict(functions=functions, bounds=bounds, instances=instances, assumptions=list(assumptions), **kw)


prop("P01", ["activ_fn::{Sigmoid,Linear,Exp,Tanh}::{func,func_grad,func_grad_from_output,func_inv}"], "every real input",
     [I("activ_fwd", f=f) for f in range(4)] + [I("activ_inverse", f=f) for f in range(4)])
prop("P02", ["cost_fn::{MeanSqError,CrossEntropyError}::{cost,grad_cost} on Matrix and Vector"], "outputs/targets up to 2x2 (quick), 3x2 (thorough)",
     [I("cost_fns", f=f, r=r, c=c) for f in range(4) for r, c in ((1, 1), (1, 2), (2, 1), (2, 2)) if c == 1 or f in (0, 2)]
     + [T("cost_fns", f=f, r=3, c=2) for f in (0, 2)])
prop("P03", ["regularization::Regularization::{reg_cost,reg_grad}"], "weights 1x1..2x2 (quick), 3x2 (thorough); all non-zero (differentiable points)",
     [I("regular", f=f, r=r, c=c) for f in range(4) for r, c in ((1, 2), (2, 1), (2, 2))] + [T("regular", f=f, r=3, c=2) for f in range(4)])
prop("P04", ["kernel::*::kernel, kernel::{KernelSum,KernelProd,KernelArith}"], "vectors of length 1..3; polynomial degree 1..3",
     [I("kernels", f=f, d=d, e=2) for f in range(8) for d in (1, 2)] + [I("kernels", f=1, d=2, e=e) for e in (1, 3)]
     + [T("kernels", f=f, d=3, e=2) for f in range(8)])
prop("P05", ["stats::dist::{Gaussian,Exponential}::{new,from_std_dev,pdf,logpdf,cdf,sample,ind_sample}"], "every real input, mean, positive scale",
     [I("dist_exp"), I("dist_exp_neg", covers=("negative", "non-negative")), I("dist_gauss", ctor=0), I("dist_gauss", ctor=1), I("dist_gauss_mono"), I("dist_sample", ctor=0), I("dist_sample", ctor=1)])
prop("P06", ["MinMaxFitter::fit, MinMaxScaler::{transform,inv_transform}"], "data up to 3x1 / 2x2 (quick), 3x2, 4x1 (thorough); |x| < 1e6",
     [I("minmax", covers=("fitted", "rejected"), r=2, c=1, dflt=0), I("minmax", covers=("fitted", "rejected"), r=2, c=1, dflt=1), I("minmax", covers=("fitted", "rejected"), r=2, c=2, dflt=0),
      I("minmax", covers=("fitted", "rejected"), r=3, c=1, dflt=0), I("nonfinite"),
      T("minmax", covers=("fitted", "rejected"), r=3, c=2, dflt=1), T("minmax", covers=("fitted", "rejected"), r=4, c=1, dflt=0)])
prop("P07", ["StandardizerFitter::fit, Standardizer::{transform,inv_transform}"], "data up to 3x1 / 2x2 (quick), 4x1, 3x2 (thorough)",
     [I("standardize", r=2, c=1, dflt=0), I("standardize", r=2, c=1, dflt=1), I("standardize", r=2, c=2, dflt=0), I("standardize", r=3, c=1, dflt=0), I("standardize_degenerate", covers=(), r=2), I("standardize_degenerate", covers=(), r=3), I("nonfinite"),
      T("standardize", r=3, c=2, dflt=0), T("standardize", r=4, c=1, dflt=0)])
prop("P08", ["Normalizer::transform"], "data up to 2x2 / 1x3 (quick), 2x3 (thorough), Euclidean and L1 norms",
     [I("normalize", covers=("zero row", "non-zero row"), r=r, c=c, l1=l1) for l1 in (0, 1) for r, c in ((1, 2), (2, 2), (1, 3))] + [I("nonfinite")]
     + [T("normalize", covers=("zero row", "non-zero row"), r=2, c=3, l1=l1) for l1 in (0, 1)])
KN = dict(technique="Kani/CBMC: the real functions over symbolic random draws, SAT decides every assertion; counterexamples replayed on the real code")


def K(quick, thorough=()):
    return [(h, "quick") for h in quick.split()] + [(h, "thorough") for h in (thorough or "").split()]


prop("P09", ["Shuffler::transform"], "matrices of 1..4 rows (quick), 5, 6 rows (thorough), every sequence of draws; without uniformity also 9 rows, and 3 rows of 9 columns, every sequence of draws; 12 and 40 rows with two free draws", [I("shuffle_long", which=0, n=n, k=n, seed=3, a=5, b=b) for n, b in ((12, 8), (40, 30))],
     kani=K("k_shuffler_1 k_shuffler_2 k_shuffler_3 k_shuffler_4 k_permuted_9 k_wide_3", "k_shuffler_5 k_shuffler_6"), **KN)
prop("P10", ["rand_utils::{fisher_yates,in_place_fisher_yates}"], "slices of length 1, 3, 4 (quick), 6 (thorough), every sequence of draws; without uniformity also 9 (quick), 20 (thorough, fisher_yates); 40 with two free draws", [I("shuffle_long", which=w, n=40, k=40, seed=3, a=5, b=30) for w in (1, 2)],
     kani=K("k_fisher_1 k_fisher_3 k_fisher_4 k_inplace_1 k_inplace_3 k_inplace_4 k_fisher_9 k_inplace_9", "k_fisher_6 k_inplace_6 k_fisher_20"), **KN)
prop("P11", ["rand_utils::reservoir_sample"], "pool/sample sizes 1/1, 3/0, 3/3, 5/2, 6/3, 9/4, 16/9; 70/20 and 30/25 with two free draws; uniformity for 3/1, 4/2 (quick), 5/2, 5/3 (thorough), every sequence of draws",
     [I("reservoir_panics", n=n, k=k) for n, k in ((0, 1), (2, 3), (3, 3), (3, 2), (0, 0))] + [I("shuffle_long", which=3, n=70, k=20, seed=3, a=5, b=30), I("shuffle_long", which=3, n=30, k=25, seed=3, a=0, b=1)],
     kani=K("k_reservoir_1_1 k_reservoir_3_0 k_reservoir_3_3 k_reservoir_5_2 k_reservoir_6_3 k_reservoir_9_4 k_reservoir_16_9 k_resuni_3_1 k_resuni_4_2", "k_resuni_5_2 k_resuni_5_3"), **KN)
prop("P13", ["confusion_matrix::confusion_matrix"], "up to 2 samples without labels, 3 with one, 2 with two, 1 with three given labels (quick); 3 without or with 2 labels, 2 with 3 labels (thorough)",
     [I("confusion", n=1, labels=0), I("confusion", n=2, labels=0), I("confusion", n=2, labels=1), I("confusion", n=2, labels=2, covers=("end", "duplicate labels")), I("confusion", n=3, labels=1), I("confusion", n=1, labels=3, covers=("end", "duplicate labels"))]
     + [T("confusion", n=2, labels=3, covers=("end", "duplicate labels")), T("confusion", n=3, labels=0), T("confusion", n=3, labels=2)])
prop("P14", ["score::{accuracy,row_accuracy,precision,recall,f1}"], "up to 3 samples (quick), 4 (thorough); non-zero denominators for precision/recall/f1",
     [I("acc", n=n) for n in (1, 2, 3)] + [I("row_acc", n=2, c=2)] + [I("prf", n=n, which=w) for n in (1, 2, 3) for w in (0, 1, 2)]
     + [I("prf_panics", covers=("binary", "not binary"), n=2, which=w) for w in (0, 1, 2)]
     + [T("acc", n=4), T("row_acc", n=3, c=2)] + [T("prf", n=4, which=w) for w in (0, 1, 2)])
prop("P15", ["score::neg_mean_squared_error"], "matrices up to 2x2 (quick), 3x3 (thorough)", [I("neg_mse", r=r, c=c) for r, c in ((1, 1), (2, 1), (1, 2), (2, 2))] + [T("neg_mse", r=3, c=3)])
prop("P16", ["LogisticRegressor::{train,predict,parameters}", "BaseLogisticRegressor::compute_grad"], "up to 2x2 inputs (quick), 3x2 (thorough)",
     [I("logistic", r=r, c=c) for r, c in ((1, 1), (2, 1), (2, 2))] + [T("logistic", r=3, c=2)])
prop("P17", ["LinRegressor::{train,predict,compute_grad}"], "gradient up to 3x2, least squares up to 3x1 and 2x1 (quick), 3x2 (thorough)",
     [I("lin_grad", r=r, c=c) for r, c in ((1, 1), (2, 2), (3, 2))] + [I("lin_train", covers=("trained", "rejected"), r=r, c=c) for r, c in ((2, 1), (3, 1), (4, 1))]
     + [T("lin_train", covers=("trained", "rejected"), r=3, c=2)])
prop("P18", ["GenLinearModel::{train,predict}", "glm::{Bernoulli,Poisson,Normal} as Criterion", "glm::{Logit,Log,Identity} as LinkFunc"], "exact fit for affine links and constant weights (2x1, 3x1; 4x1 thorough); fixed point of Bernoulli, Poisson and a family with default methods on 3 samples",
     [I("glm_pieces", f=f) for f in range(5)] + [I("glm_train", covers=("end", "rejected"), f=f, r=r, c=1) for f in range(3) for r in (2, 3)] + [I("glm_fixed", f=f, c=c) for f, c in ((0, 0), (1, 0), (1, 1), (2, 0))]
     + [T("glm_train", covers=("end", "rejected"), f=f, r=4, c=1) for f in range(3)])
prop("P12", ["cross_validation::k_fold_validate and its fold iterators", "rand_utils::in_place_fisher_yates"], "2..5 samples with every k and 6 samples in 4 folds; 7..9 samples with every k for one shuffle (quick), 6 samples, every k (thorough); every sequence of shuffle draws, symbolic data",
     [I("k_fold", n=3, k=3, fail=0, sh=0, must=["tested [[%d], [%d], [%d]]" % o for o in permutations(range(3))])]
     + [I("k_fold", n=n, k=k, fail=0, sh=0) for n, k in ((2, 2), (3, 2), (4, 2), (4, 3), (4, 4), (3, 1), (3, 0), (2, 3))]
     + [I("k_fold", n=3, k=2, fail=f, sh=0) for f in (1, 2, 10, 11)] + [I("k_fold_mismatch", n=n) for n in (2, 4)]
     + [I("k_fold", n=5, k=k, fail=0, sh=0) for k in (2, 3, 4)] + [I("k_fold", n=6, k=4, fail=0, sh=0)] + [I("k_fold", n=n, k=k, fail=0, sh=1) for n in (7, 8, 9) for k in range(2, n + 1)] + [T("k_fold", n=6, k=k, fail=0, sh=0) for k in (2, 3, 5, 6)],
     kani=K("k_folds_2_2", "k_folds_3_2 k_folds_4_3 k_folds_5_2"),
     technique="bounded symbolic execution of the real code over every shuffle and symbolic data, decided by SMT; Kani/CBMC over symbolic shuffle draws")
prop("P19", ["GradientDesc, StochasticGD, AdaGrad, RMSProp: new, optimize"], "3 iterations over 2 samples with 1 or 2 parameters, 2 iterations over 3 samples (quick), 3 iterations over 3 samples, 4 over 2, 8 batch iterations (thorough); arbitrary costs and gradients, every shuffle",
     [I("descent", covers=("all iterations", "stopped early"), f=f, n=2, d=d, iters=3, tiny=0) for f in range(4) for d in (1, 2)] + [I("descent", covers=("all iterations", "stopped early"), f=f, n=2, d=1, iters=3, tiny=1) for f in range(4)] + [I("descent", covers=("all iterations", "stopped early"), must=["pass %d in order [%d, %d, %d]" % ((i,) + o) for i in (1, 2) for o in permutations(range(3))], f=f, n=3, d=1, iters=2, tiny=0) for f in (1, 2, 3)]
     + [I("descent_refused", covers=("accepted", "refused"), f=f, w=w) for f, k in ((0, 1), (1, 2), (2, 2), (3, 3)) for w in range(k)]
     + [I("descent", covers=("all iterations", "stopped early"), f=0, n=2, d=3, iters=5, tiny=0)]
     + [T("descent", covers=("all iterations", "stopped early"), f=f, n=n, d=1, iters=i, tiny=0) for f in (1, 2, 3) for n, i in ((3, 3), (2, 4))] + [T("descent", covers=("all iterations",), f=0, n=3, d=2, iters=8, tiny=0)])
prop("P20", ["ConjugateGD::optimize"], "1 parameter; 1 iteration with a line search of up to 2 evaluations, 2 iterations with line searches of 1 evaluation, so that two searches in a row can fail (quick), 3 such iterations (thorough); arbitrary costs and gradients",
     [I("conjugate", covers=(), d=1, iters=1, max=1), I("conjugate", covers=(), time=600, d=1, iters=2, max=0), T("conjugate", covers=(), time=1500, d=1, iters=3, max=0)])
NA_ = [(0, 1, 1, 1), (1, 2, 0, 1), (2, 1, 1, 0), (2, 2, 1, 1), (3, 2, 1, 0), (4, 2, 0, 0), (5, 2, 0, 0), (6, 1, 0, 0), (7, 1, 1, 0), (8, 2, 0, 0)]  # architecture, samples, by sizes, cross entropy
prop("P21", ["NeuralNet::{mlp,new,add,add_layers,train,predict,get_net_weights}", "BaseNeuralNet::forward_prop", "net_layer::{Linear, ActivationFunc as NetLayer}::{forward,param_shape,default_params}"],
     "9 architectures up to 3 linear layers and widths up to 3, up to 2 samples; arbitrary inputs and weights",
     [I("nnet", f=f, r=r, mlp=m, bce=b, reg=0, g=0) for f, r, m, b in NA_] + [I("nnet_mismatch")])
prop("P22", ["BaseNeuralNet::compute_grad", "net_layer::{Linear, ActivationFunc as NetLayer}::{back_input,back_params}", "nnet::{BCECriterion,MSECriterion}"],
     "9 architectures up to 3 linear layers and widths up to 3, up to 2 samples (3 thorough); no, L1 and L2 regularization; arbitrary inputs, targets and weights",
     [I("nnet", f=f, r=r, mlp=m, bce=b, reg=0, g=1) for f, r, m, b in NA_]
     + [I("nnet", f=0, r=2, mlp=1, bce=1, reg=1, g=1), I("nnet", f=9, r=1, mlp=0, bce=0, reg=1, g=1), I("nnet", f=0, r=2, mlp=1, bce=1, reg=2, g=1), I("nnet", f=8, r=2, mlp=0, bce=0, reg=2, g=1), I("nnet", f=9, r=2, mlp=0, bce=0, reg=2, g=1)]
     + [T("nnet", f=f, r=3, mlp=m, bce=b, reg=0, g=1) for f, m, b in ((2, 1, 0), (2, 1, 1), (3, 1, 0), (4, 0, 0), (7, 1, 0))] + [T("nnet", f=1, r=2, mlp=0, bce=1, reg=1, g=1)])
prop("P23", ["GaussianProcess::{new,default,train,predict,get_posterior}", "ConstMean::func"], "up to 2 training and 2 test points (quick), 3 training points (thorough); arbitrary symmetric kernel values and means",
     [I("gp", covers=("trained", "rejected"), n=n, m=m) for n, m in ((1, 1), (1, 2), (2, 1), (2, 2))] + [I("gp_default")] + [I("gp", covers=("trained", "rejected"), n=3, m=1), T("gp", covers=("trained", "rejected"), n=3, m=2)])
prop("P24", ["SVM::{new,train,predict}"], "2 samples with 3 steps, 3 samples with 2 steps (quick), 3 samples with 3, 4 with 2 steps (thorough); arbitrary symmetric kernel values, every draw",
     [I("svm", n=n, iters=i, y=y, must=["sample %d at step %d" % (a, t + 1) for a in range(n) for t in range(i)]) for n, i, y in ((2, 3, 1), (2, 2, 3), (3, 2, 5))] + [T("svm", n=3, iters=3, y=y) for y in (1, 6)] + [T("svm", n=4, iters=2, y=5)])
prop("P25", ["BruteForce, KDTree, BallTree: new, build, search", "KNearest::{new,add,dist}"],
     "3 rows in any order and 4 rows in column order with 1 column, k up to 3, leaf sizes 2 and 3; 2 columns with a symbolic query over four layouts of 4..6 rows, or a symbolic first column; brute force 4x2; |x| <= 1e100 (quick), 4 rows in any order, 5 rows in column order (thorough)",
     [I("knn", s=0, n=4, d=1, k=k, leaf=2, first=0, grid=0) for k in (1, 2, 4)] + [I("knn", s=0, n=3, d=2, k=2, leaf=2, first=0, grid=0)]
     + [I("knn", s=s, n=3, d=1, k=k, leaf=2, first=0, grid=0) for s in (1, 2) for k in (1, 2)]
     + [I("knn", s=1, n=4, d=1, k=k, leaf=l, first=1, grid=0) for k, l in ((2, 2), (3, 2))] + [I("knn", s=2, n=4, d=1, k=k, leaf=l, first=1, grid=0) for k, l in ((2, 2), (3, 3))]
     + [I("knn", s=s, n=4, d=1, k=1, leaf=2, first=1, grid=0) for s in (1, 2)]
     + [I("knn", s=s, n=n, d=2, k=k, leaf=2, first=0, grid=2, lay=lay) for s in (1, 2) for n, k, lay in ((4, 2, 0), (4, 1, 1), (6, 1, 3))] + [I("knn", s=s, n=3, d=2, k=1, leaf=2, first=1, grid=1, lay=0) for s in (1, 2)]
     + [I("knn", s=1, n=5, d=2, k=2, leaf=2, first=0, grid=2, lay=2), I("knn", s=2, n=5, d=2, k=1, leaf=2, first=0, grid=2, lay=2), T("knn", s=2, n=5, d=2, k=2, leaf=2, first=0, grid=2, lay=2), T("knn", s=2, n=6, d=2, k=2, leaf=3, first=0, grid=2, lay=3)]
     + [I("knn_same", s=s, n=3, k=2, leaf=l) for s, l in ((0, 2), (1, 2), (1, 1), (2, 2), (2, 1))]
     + [T("knn", s=s, n=4, d=1, k=k, leaf=l, first=0, grid=0) for s in (1, 2) for k, l in ((1, 2), (3, 3))]
     + [T("knn", s=s, n=5, d=1, k=3, leaf=3, first=1, grid=0) for s in (1, 2)] + [T("knn", s=s, n=5, d=2, k=3, leaf=2, first=0, grid=2, lay=0) for s in (1, 2)])
prop("P26", ["KNNClassifier::{new,new_specified,default,train,predict}"], "up to 3 training rows with 3 labels, up to 2 rows to classify, every set of neighbours",
     [I("knn_vote", n=3, k=2, m=2, fail=0), I("knn_vote", n=3, k=3, m=1, fail=0), I("knn_vote", n=2, k=1, m=2, fail=1), I("knn_refused")] + [T("knn_vote", n=4, k=4, m=1, fail=0), T("knn_vote", n=4, k=3, m=2, fail=0)])
prop("P27", ["KMeansClassifier::{new,new_specified,train,predict}", "Forgy, RandomPartition, KPlusPlus: init_centroids", "k_means::sample_discretely"],
     "1 iteration of 4 samples in 2 clusters and 2x2 data, 2 iterations of 3 samples, 3 iterations of 2 samples, from arbitrary initial centroids; initializers for up to 4 rows and 3 clusters, every draw (at most 2 rejected draws)",
     [I("kmeans", n=n, d=d, k=k, iters=i) for n, d, k, i in ((2, 1, 2, 1), (3, 1, 1, 2), (2, 2, 2, 1), (4, 1, 2, 1), (2, 1, 2, 3), (3, 1, 2, 2))] + [I("kmeans_init", f=f, n=n, k=k, must=["rows [%s]" % ", ".join(map(str, o)) for o in permutations(range(n), k)] if f == 0 else ["first %d" % i for i in range(n)] if f == 2 else []) for f in (0, 1, 2) for n, k in ((2, 1), (3, 2), (4, 3))]
     + [I("kmeans_init", f=3, n=4, k=2, must=["parts [0, 1, %d, %d]" % o for o in product(range(2), repeat=2)])] + [I("kmeans_refused")]
     + [T("kmeans", n=n, d=d, k=k, iters=i) for n, d, k, i in ((4, 1, 3, 1), (3, 2, 2, 1), (2, 2, 2, 2), (5, 1, 2, 1))])
prop("P28", ["DBSCAN::{default,new,set_predictive,train,predict,clusters,expand_cluster,region_query}"],
     "up to 4 samples with a symbolic radius, 5 samples with radius 1, min_points 1..4; predictions for up to 4 samples; one free coordinate per sample",
     [I("dbscan", n=n, d=d, min=m, eps=e, dflt=0, predict=0) for n, d, m, e in ((1, 1, 1, 0), (2, 1, 1, 0), (3, 2, 2, 0), (4, 1, 1, 0), (4, 1, 2, 0), (4, 1, 3, 0), (4, 2, 3, 0), (5, 1, 3, 1))]
     + [I("dbscan", n=n, d=d, min=m, eps=e, dflt=0, predict=1, covers=("end", "near", "far")) for n, d, m, e in ((2, 1, 2, 0), (3, 1, 3, 0), (3, 2, 2, 0))] + [I("dbscan_again", a=a, b=b, p1=p1, p2=p2) for a, b, p1, p2 in ((2, 2, 1, 1), (3, 2, 1, 0), (2, 3, 0, 1), (2, 3, 1, 0))]
     + [T("dbscan", n=5, d=1, min=5, eps=1, dflt=1, predict=0), T("dbscan", n=5, d=1, min=4, eps=0, dflt=0, predict=0), T("dbscan", n=5, d=1, min=2, eps=1, dflt=0, predict=0)] + [T("dbscan", n=4, d=1, min=3, eps=1, dflt=0, predict=1, covers=("end", "near", "far"))])
prop("P29", ["GaussianMixtureModel::{new,with_weights,train,predict,means,covariances,mixture_weights}"],
     "membership for up to 3 samples, 2 columns, 2 components; one EM step for up to 3 samples with 1 column and 2 components or 2 columns and 1 component, two EM steps for 1 component; positive mixture weights; every covariance option; all draws (initial rows)",
     [I("gmm", f=f, n=n, d=d, k=k, it=0, w=w, code=c) for f, n, d, k, w, c in ((0, 2, 1, 1, 0, 0), (0, 2, 1, 2, 1, 0), (1, 3, 1, 2, 1, 1), (1, 3, 1, 2, 0, 2), (2, 2, 1, 2, 0, 0), (2, 3, 2, 2, 1, 0), (0, 3, 2, 2, 1, 0), (0, 3, 2, 2, 1, 1))]
     + [I("gmm", f=f, n=n, d=d, k=k, it=1, w=w, code=c) for f, n, d, k, w, c in ((0, 2, 1, 2, 0, 0), (0, 3, 1, 2, 1, 1), (1, 2, 1, 2, 1, 0), (1, 3, 2, 1, 0, 0), (0, 3, 2, 1, 0, 1), (2, 2, 2, 1, 0, 0), (2, 3, 1, 2, 0, 2))]
     + [I("gmm", f=f, n=n, d=d, k=1, it=2, w=w, code=0, covers=("end", "converged")) for f, n, d, w in ((0, 2, 1, 0), (1, 3, 1, 1), (2, 3, 2, 0))] + [I("gmm_refused", covers=("accepted", "refused"))]
     + [T("gmm", f=f, n=n, d=d, k=k, it=1, w=1, code=0) for f, n, d, k in ((0, 4, 1, 2), (1, 3, 1, 3), (2, 3, 2, 2), (0, 3, 2, 2))])
prop("P30", ["NaiveBayes::{new,train,predict,get_log_probs,class_prior,cluster_count}", "Gaussian, Bernoulli, Multinomial: from_model_params, update_params, joint_log_lik"],
     "up to 4 training rows, 2 columns, 3 classes (some without rows), 2 points; features >= 0 for Multinomial, in [0, 1] for Bernoulli, several values per class and feature for Gaussian",
     [I("nbayes", f=0, n=n, d=d, k=k, m=m, code=c) for n, d, k, m, c in ((2, 1, 1, 1, 0), (4, 1, 2, 2, 6), (2, 2, 2, 2, 3), (2, 2, 2, 1, 2), (3, 1, 3, 2, 13), (4, 2, 2, 1, 10))]
     + [I("nbayes", f=1, n=n, d=d, k=k, m=m, code=c) for n, d, k, m, c in ((1, 1, 1, 1, 0), (3, 2, 2, 1, 5), (2, 1, 3, 2, 5), (3, 1, 3, 1, 5))]
     + [I("nbayes", f=2, n=n, d=d, k=k, m=m, code=c) for n, d, k, m, c in ((1, 1, 1, 1, 0), (3, 2, 2, 2, 2), (2, 2, 3, 2, 5), (3, 3, 3, 1, 15))]
     + [I("nbayes_refused", covers=("accepted", "refused"))]
     + [T("nbayes", f=f, n=4, d=2, k=2, m=2, code=9) for f in (0, 2)] + [T("nbayes", f=1, n=4, d=2, k=2, m=1, code=6), T("nbayes", f=1, n=2, d=2, k=3, m=2, code=5), T("nbayes", f=2, n=4, d=3, k=3, m=2, code=38)])
prop("P31", ["PCA::{new,default,train,predict,components}", "pca::centering"],
     "data of up to 3x2 and 2x3, every number of components, after another training on wide or long data; the singular value decomposition of rulinalg is replaced by its contract (thin, singular values in decreasing order)",
     [I("pca", r=r, c=c, n=n, center=ce, first=f, spectral=s) for r, c, n, ce, f, s in
      ((2, 1, 0, 1, 0, 2), (3, 1, 1, 0, 1, 2), (2, 2, 0, 1, 0, 2), (2, 2, 2, 0, 1, 1), (2, 2, 1, 1, 2, 0), (3, 2, 1, 1, 1, 1), (3, 2, 2, 0, 0, 2), (3, 2, 2, 1, 0, 2), (2, 3, 1, 0, 2, 1), (2, 3, 0, 1, 2, 0), (2, 3, 2, 0, 0, 2), (1, 2, 1, 0, 2, 1))] + [I("pca_refused")]
     + [T("pca", r=3, c=2, n=0, center=1, first=0, spectral=2), T("pca", r=3, c=3, n=2, center=0, first=1, spectral=0), T("pca", r=4, c=2, n=0, center=1, first=0, spectral=0)])


def M(h, m, n, c, na=0, ca=0, r=0, iters=2, k=1, center=0, code=2, tier="quick", **kw):
    """one model (see make() in h_meta.rs) under a statement about all models"""
    x = dict(na=na, ca=ca) if h == "refit" else dict(r=r) if h == "rows" else {}
    return I(h, tier=tier, m=m, n=n, c=c, iters=iters, k=k, center=center, code=code, **x, **kw)


BOTH = ("end", "refused")
prop("P32", ["LinRegressor, LogisticRegressor, GenLinearModel, GaussianProcess, SVM, NaiveBayes, KNNClassifier (BruteForce, KDTree, BallTree), KMeansClassifier, DBSCAN, PCA: train, predict"],
     "two trainings (or an accepted and a refused one) on up to 5 rows and 2 columns, with equal and with different numbers of rows and columns; the same draws for the model trained again and the new one; SVM and k-means with up to 3 steps; PCA under the contract of the svd",
     [M("refit", *a[:3], na=a[3], ca=a[4], code=0, **(a[5] if len(a) > 5 else {})) for a in (
         (0, 2, 1, 3, 1, dict(covers=BOTH)), (0, 3, 1, 2, 1, dict(covers=BOTH)), (1, 2, 1, 3, 1), (2, 2, 1, 3, 1, dict(covers=BOTH)), (2, 3, 1, 2, 1, dict(covers=BOTH)),
         (3, 2, 1, 3, 1), (3, 2, 1, 3, 1, dict(center=1, covers=BOTH)), (3, 2, 1, 1, 2, dict(center=1, covers=BOTH)), (3, 3, 1, 2, 1, dict(center=1, covers=("refused",))),
         (4, 2, 1, 3, 1), (4, 3, 1, 2, 2, dict(iters=3)), (5, 4, 1, 5, 1), (5, 4, 1, 4, 2), (6, 2, 1, 3, 2), (7, 2, 1, 3, 2), (8, 2, 1, 3, 1, dict(k=2)), (8, 3, 1, 2, 2),
         (9, 2, 1, 2, 1), (10, 2, 1, 2, 1), (10, 2, 1, 2, 2), (9, 2, 2, 2, 1), (11, 2, 1, 3, 1, dict(k=2)), (11, 2, 1, 3, 2, dict(k=2, iters=1)),
         (13, 2, 1, 3, 1, dict(k=2)), (13, 2, 1, 2, 1), (13, 3, 1, 2, 2, dict(k=2)), (14, 2, 1, 3, 2), (14, 2, 1, 3, 1), (14, 2, 2, 3, 1, dict(center=1)))]
     + [M("refit", m, n, 1, na=n, ca=1, k=2 if m in (8, 11, 12) else 1, code=0 if m != 12 else 2, covers=BOTH if m in (0, 2) else ("end",)) for m, n in [(i, 2) for i in (0, 1, 2, 3, 4, 6, 7, 8, 9, 10, 11, 12)] + [(5, 4), (7, 3)]]
     + [M("refit", 4, 2, 1, na=2, ca=1, iters=3, code=code) for code in (2, 5)] + [M("refit", 12, 2, 1, na=3, ca=1, k=2)]
     + [M("refit", m, 2, 1, na=2, ca=1, k=2, code=0, tier="thorough") for m in (9, 10)] + [M("refit", 4, 3, 1, na=3, ca=1, iters=3, code=c, tier="thorough") for c in (5, 7, 21)])
prop("P33", ["predict of LinRegressor, LogisticRegressor, GenLinearModel, GaussianProcess (and get_posterior), SVM, NaiveBayes (and get_log_probs), KNNClassifier (three searches), KMeansClassifier, DBSCAN, PCA, GaussianMixtureModel, NeuralNet", "transform and inv_transform of MinMaxScaler, Standardizer; Normalizer::transform"],
     "models trained on up to 4 rows and 2 columns; batches of up to 3 rows drawn in any order, with repetition, from 2 or 3 arbitrary rows",
     [M("rows", m, n, c, r=r, k=k, iters=i, center=ce) for m, n, c, r, k, i, ce in (
         (0, 3, 1, 3, 1, 2, 0), (1, 2, 2, 3, 1, 2, 0), (2, 3, 1, 2, 1, 2, 0), (3, 2, 1, 2, 1, 2, 0), (3, 2, 1, 2, 1, 2, 1), (4, 2, 2, 3, 1, 2, 0), (5, 4, 2, 2, 1, 2, 0), (6, 2, 2, 3, 1, 2, 0),
         (7, 2, 2, 3, 1, 2, 0), (8, 2, 1, 3, 1, 2, 0), (8, 3, 1, 2, 2, 2, 0), (9, 2, 1, 2, 1, 2, 0), (10, 2, 1, 2, 1, 2, 0), (11, 2, 1, 2, 2, 2, 0), (13, 2, 1, 2, 2, 2, 0), (13, 2, 1, 2, 1, 2, 0), (8, 3, 1, 2, 3, 2, 0),
         (14, 2, 1, 2, 1, 0, 0), (14, 2, 1, 2, 1, 0, 1), (15, 2, 1, 2, 2, 1, 0), (16, 2, 2, 3, 1, 2, 0), (17, 2, 2, 3, 1, 2, 0), (18, 2, 2, 3, 1, 2, 0), (19, 2, 2, 3, 1, 2, 0), (20, 2, 2, 3, 1, 2, 0), (21, 2, 2, 3, 1, 2, 0))]
     + [M("rows", m, 3, 1, r=2, tier="thorough") for m in (9, 10)] + [M("rows", 13, 3, 1, r=2, k=2, tier="thorough"), M("rows", 13, 2, 2, r=3, k=1, tier="thorough")])
prop("P34", ["train of LinRegressor, LogisticRegressor<GradientDesc>, GenLinearModel, GaussianProcess, NaiveBayes, KNNClassifier (three searches), KMeansClassifier, DBSCAN", "MinMaxFitter::fit, StandardizerFitter::fit"],
     "two generators of the permutations of up to 3 rows (4 for Gaussian Naive Bayes), 1 column, one arbitrary query",
     [M("order", m, n, 1, k=2 if m in (11, 13) else 1, covers=BOTH if m in (0, 2) else ("end",)) for m in (0, 1, 2, 3, 6, 7, 8, 9, 10, 11, 13, 17, 18, 19, 20) for n in (2, 3)] + [M("order", 5, 4, 1)])
prop("P35", ["train and predict of LinRegressor, LogisticRegressor<GradientDesc>, GenLinearModel, GaussianProcess, SVM, NaiveBayes, KNNClassifier (three searches), KMeansClassifier, DBSCAN, GaussianMixtureModel", "MinMaxFitter, StandardizerFitter, MinMaxScaler, Standardizer, Normalizer"],
     "2 and 3 columns (two generators of the permutations), up to 4 rows, one arbitrary query; linear kernels; 2 steps of descent, Pegasos and k-means; one EM step with diagonal covariances",
     [M("features", m, n, c, k=k, iters=i, center=ce, covers=cov) for m, n, c, k, i, ce, cov in (
         (0, 2, 2, 1, 2, 0, ("refused",)), (0, 3, 2, 1, 2, 0, BOTH), (1, 2, 2, 1, 2, 0, ("end",)), (1, 3, 2, 1, 2, 0, ("end",)), (1, 2, 3, 1, 2, 0, ("end",)), (2, 2, 2, 1, 2, 0, ("refused",)), (2, 3, 2, 1, 2, 0, BOTH),
         (3, 2, 2, 1, 2, 1, BOTH), (3, 3, 2, 1, 2, 0, ("end",)), (3, 2, 3, 1, 2, 0, ("end",)), (4, 2, 2, 1, 2, 0, ("end",)), (4, 3, 2, 1, 2, 0, ("end",)), (4, 2, 3, 1, 2, 0, ("end",)), (5, 4, 2, 1, 2, 0, ("end",)), (5, 4, 3, 1, 2, 0, ("end",)),
         (6, 3, 2, 1, 2, 0, ("end",)), (6, 2, 3, 1, 2, 0, ("end",)), (7, 3, 2, 1, 2, 0, ("end",)), (7, 2, 3, 1, 2, 0, ("end",)), (8, 3, 2, 1, 2, 0, ("end",)), (8, 3, 2, 2, 2, 0, ("end",)), (8, 3, 2, 3, 2, 0, ("end",)), (8, 2, 3, 1, 2, 0, ("end",)),
         (9, 2, 2, 1, 2, 0, ("end",)), (10, 2, 2, 1, 2, 0, ("end",)), (11, 2, 2, 2, 2, 0, ("end",)), (12, 2, 2, 2, 2, 0, ("end",)), (13, 2, 2, 2, 2, 0, ("end",)), (13, 2, 3, 2, 2, 0, ("end",)), (13, 3, 2, 2, 2, 0, ("end",)), (15, 2, 2, 2, 1, 0, ("end",)),
         (17, 2, 2, 1, 2, 0, BOTH), (17, 3, 2, 1, 2, 0, BOTH), (17, 2, 3, 1, 2, 0, BOTH), (18, 2, 2, 1, 2, 0, BOTH), (19, 3, 2, 1, 2, 0, BOTH), (19, 2, 3, 1, 2, 0, BOTH), (20, 2, 2, 1, 2, 0, BOTH), (21, 2, 2, 1, 2, 0, ("end",)), (21, 2, 3, 1, 2, 0, ("end",)))]
     + [M("features", m, n, c, k=k, iters=i, tier="thorough", covers=cov) for m, n, c, k, i, cov in ((0, 4, 3, 1, 2, BOTH), (2, 4, 3, 1, 2, BOTH), (11, 2, 3, 2, 1, ("end",)), (11, 3, 2, 2, 1, ("end",)), (9, 2, 3, 1, 2, ("end",)), (18, 3, 2, 1, 2, BOTH))])
prop("P36", ["Default of GradientDesc, StochasticGD, RMSProp, ConjugateGD, the kernels, Gaussian, Exponential, MinMaxFitter, StandardizerFitter, Normalizer, DBSCAN, KNNClassifier, SVM, GaussianProcess, ConstMean, BCECriterion, MSECriterion", "KNNClassifier::new, KMeansClassifier::new, GaussianMixtureModel::new, SVM::new, NeuralNet::default"],
     "arbitrary start and constant gradient under a cost that never stagnates; DBSCAN on up to 8 evenly spaced rows and a gap, for every spacing; nearest neighbours of every query among 8 fixed rows; SVMs of 2 rows and up to 7 steps; everything else for arbitrary values of its shapes",
     [I("defaults", w=w, code=0) for w in (0, 1, 2, 3, 4, 8, 10, 11, 12)] + [I("defaults", w=5, n=n, code=0, covers=("end", "dense", "noise")) for n in (6, 8)]
     + [I("defaults", w=6, code=0, covers=("end", "label 1", "label 2"))] + [I("defaults", w=7, n=2, iters=i, code=c, own=o) for i, c, o in ((3, 2, 0), (4, 5, 0), (6, 62, 1), (7, 124, 1))] + [I("defaults", w=9, k=k, n=2, code=0) for k in (1, 3)])


def more(id, bounds, *instances):
    """larger shapes of which only `mix` entries of every input are symbolic (the others are fixed pseudo-random numbers)"""
    PROPS[id]["bounds"] += "; larger shapes with one to three symbolic entries per input and fixed numbers elsewhere: " + bounds
    PROPS[id]["instances"] += instances


WIDE = ((13, 11), (41, 1))
more("P02", "13x11 and 41x1", *[I("cost_fns", f=f, r=r, c=c, mix=2) for f, r, c in ((0, 13, 11), (0, 41, 1), (1, 41, 1))],
     I("cost_fns", f=2, r=13, c=11, mix=2, vals=1), I("cost_fns", f=3, r=41, c=1, mix=2, vals=1))
more("P03", "13x11", *[I("regular", f=f, r=13, c=11, mix=3 if f in (0, 2) else 2) for f in range(4)])
more("P04", "vectors of length 41", *[I("kernels", f=f, d=41, e=2, mix=1) for f in range(8)])
more("P06", "41x1 and 13x11", *[I("minmax", covers=("fitted",), r=r, c=c, dflt=0, mix=1) for r, c in ((41, 1), (13, 11))])
more("P07", "41x1 and 13x11", *[I("standardize", r=r, c=c, dflt=0, mix=1) for r, c in ((41, 1), (13, 11))])
more("P08", "13x11 and 3x41", I("normalize", covers=("non-zero row",), r=13, c=11, l1=0, mix=2), I("normalize", covers=("non-zero row",), r=3, c=41, l1=0, mix=1), I("normalize", covers=("non-zero row",), r=13, c=11, l1=1, mix=2))
more("P13", "21 and 300 samples", I("confusion", n=300, labels=0, mix=1, vals=3), I("confusion", n=21, labels=3, mix=1, covers=("end", "duplicate labels")), I("confusion", n=21, labels=0, mix=1, vals=4))
more("P14", "41 and 300 samples", I("acc", n=300, mix=1, vals=3), *[I("prf", n=300, which=w, mix=1, vals=2) for w in (0, 1, 2)], I("acc", n=41, mix=2, vals=3), I("row_acc", n=13, c=11, mix=2), *[I("prf", n=n, which=w, mix=2, vals=2) for n in (21, 41) for w in (0, 1, 2)])
more("P15", "13x11", I("neg_mse", r=13, c=11, mix=2))
more("P16", "13 rows, 9 columns", I("logistic", r=13, c=6, mix=2), I("logistic", r=13, c=9, mix=1, vals=1))
more("P17", "31x13 (gradient), 41x4 (least squares)", I("lin_grad", r=31, c=13, mix=2), *[I("lin_train", covers=("trained",), r=r, c=c, mix=1) for r, c in ((13, 1), (21, 4), (41, 4))])
more("P18", "21x1", *[I("glm_train", f=f, r=21, c=1, mix=1) for f in (0, 2)])
more("P21", "5 further architectures with up to 6 layers or widths up to 12, up to 21 samples", I("nnet", f=3, r=21, mlp=1, bce=0, reg=0, g=0, mix=2), I("nnet", f=10, r=5, mlp=1, bce=0, reg=0, g=0, mix=2), I("nnet", f=11, r=10, mlp=0, bce=0, reg=0, g=0, mix=2),
     I("nnet", f=12, r=2, mlp=0, bce=0, reg=0, g=0, mix=1), I("nnet", f=13, r=9, mlp=1, bce=1, reg=0, g=0, mix=1, vals=1), I("nnet", f=14, r=1, mlp=0, bce=0, reg=0, g=0, mix=1, vals=1))
more("P22", "4 further architectures with up to 6 layers or widths up to 12, up to 21 samples", I("nnet", f=3, r=21, mlp=1, bce=0, reg=0, g=1, mix=2), I("nnet", f=10, r=5, mlp=1, bce=0, reg=0, g=1, mix=2), I("nnet", f=11, r=10, mlp=0, bce=0, reg=2, g=1, mix=2),
     I("nnet", f=12, r=2, mlp=0, bce=0, reg=0, g=1, mix=1), I("nnet", f=13, r=9, mlp=1, bce=1, reg=0, g=1, mix=1, vals=1))
more("P23", "up to 18 training points with given kernel values", *[I("gp_big", n=n, m=3, mix=1) for n in (10, 18)], I("gp_big", n=5, m=2))
PROPS["P24"]["bounds"] += "; 6 samples with 2 steps; with two free kernel values and two free draws also 3 samples with 20 steps, 5 with 60 (quick), 7 with 40, 13 with 30 (thorough)"
PROPS["P24"]["instances"] += [I("svm", n=6, iters=2, y=13), I("svm", n=3, iters=20, y=5), I("svm", n=5, iters=60, y=13), T("svm", n=9, iters=2, y=300), T("svm", n=7, iters=40, y=77), T("svm", n=13, iters=30, y=2741)]
more("P25", "13 rows in 2 or 3 columns and 41 rows in 2 columns (fixed rows, one free coordinate of the query)", I("knn", s=0, n=13, d=3, k=3, leaf=2, first=0, grid=0, mix_x=0, mix_q=1, vals=16),
     *[I("knn", s=s, n=13, d=2, k=3, leaf=2, first=0, grid=3, lo=5, mix_x=0, mix_q=1, vals=16) for s in (1, 2)], *[I("knn", s=s, n=41, d=2, k=1, leaf=30, first=0, grid=3, lo=31, mix_x=0, mix_q=1, vals=64) for s in (1, 2)],
     *[T("knn", s=s, n=41, d=9, k=12, leaf=5, first=0, grid=3, lo=31, mix_x=0, mix_q=1, vals=64) for s in (1, 2)])
more("P27", "13 rows in 2 columns, 3 clusters", I("kmeans", n=13, d=2, k=3, iters=1, mix=1), I("kmeans", n=13, d=2, k=3, iters=8, mix_x=1, mix_c=0, vals=9))
more("P28", "13 and 25 samples", I("dbscan", n=25, d=1, min=3, eps=1, dflt=0, predict=0, mix=1, vals=16), I("dbscan", n=25, d=2, min=3, eps=1, dflt=0, predict=0, mix=1, vals=9), I("dbscan", n=13, d=2, min=3, eps=1, dflt=0, predict=1, mix=1, vals=9, covers=("end", "near", "far")), I("dbscan", n=13, d=1, min=3, eps=1, dflt=0, predict=0, mix=1))
more("P29", "13 rows", I("gmm", f=1, n=13, d=2, k=1, it=3, w=1, code=0, mix=1, covers=("converged",)), I("gmm", f=1, n=13, d=1, k=2, it=1, w=1, code=0, mix=1))
more("P30", "13 rows in up to 9 columns, 260 rows", I("nbayes", f=0, n=260, d=1, k=2, m=1, code=123456789, mix=1), I("nbayes", f=0, n=13, d=4, k=2, m=2, code=1234, mix=1), I("nbayes", f=1, n=13, d=4, k=2, m=2, code=1234, mix=1, vals=2), I("nbayes", f=2, n=13, d=9, k=2, m=2, code=1234, mix=1, vals=4))
MIX = dict(k=2, mix=1)
more("P32", "two trainings on 11 rows in 3 columns and 13 rows in 5 columns", *[M("refit", m, 13, 5, na=11, ca=3, vals=2, mix_a=0, **MIX) for m in (0, 1, 2, 4, 6, 7, 8, 11, 12, 13)], M("refit", 5, 13, 2, na=8, ca=3, **MIX))
more("P33", "models trained on 13 rows of up to 9 columns, batches of 13 rows in order and of 29 rows with repetition", *[M("rows", m, 13, 9, r=13, **MIX) for m in (1, 4, 16, 17, 18, 19, 20, 21)], *[M("rows", m, 13, 5, r=13, vals=9, mix_x=0, **MIX) for m in (8, 11, 13)],
     *[M("rows", m, 13, 9, r=13, vals=2, **MIX) for m in (6, 7)], M("rows", 5, 13, 9, r=13, mix_x=0, **MIX), *[M("rows", m, 13, 5, r=13, mix_x=0, **MIX) for m in (0, 2)], M("rows", 3, 13, 6, r=13, mix_x=0, vals=5, **MIX))
more("P34", "13 rows in 2 columns", *[M("order", m, 13, 2, vals=16, **MIX) for m in (0, 2, 7, 11, 13, 17, 18, 19, 20)], M("order", 3, 13, 2, k=2, mix=0, mix_u=1, vals=16), M("order", 5, 13, 2, **MIX), M("order", 6, 13, 2, vals=2, **MIX), M("order", 8, 13, 2, vals=16, tier="thorough", **MIX))
more("P35", "6 rows in 9 columns, 13 rows in 5 columns", *[M("features", m, 6, 9, vals=2, **MIX) for m in (1, 3, 4, 6, 7, 8, 11, 13, 17, 18, 19, 20, 21)], *[M("features", m, 13, 5, mix_x=0, **MIX) for m in (0, 2, 5)])
FEW = dict(tiny=0, few=25, mix=0, mix_s=1, code=12345)
DC = ("all iterations", "stopped early")
more("P19", "21 samples, up to 30 parameters, up to 150 iterations, one in 5 to 70 costs arbitrary, two orders of the samples", I("descent", covers=DC, f=0, n=21, d=30, iters=12, tiny=0, few=5, mix=1, code=0), I("descent", covers=DC, f=0, n=3, d=2, iters=150, **dict(FEW, few=70)),
     *[I("descent", covers=DC, f=f, n=21, d=12, iters=3, **FEW) for f in (1, 2, 3)], I("descent", covers=DC, f=1, n=2, d=2, iters=60, **dict(FEW, few=50)), I("descent", covers=DC, f=2, n=2, d=2, iters=40, **dict(FEW, few=50)), I("descent", covers=DC, f=3, n=2, d=2, iters=12, **FEW))
PROPS["P12"]["bounds"] += "; 21 samples in 3, 7, 19, 20 folds with two free draws, 35 samples in 10 folds for one shuffle"
PROPS["P12"]["instances"] += [I("k_fold", n=21, k=k, fail=0, sh=3) for k in (3, 7, 19, 20)] + [I("k_fold", n=35, k=10, fail=0, sh=1)]
PROPS["P26"]["bounds"] += "; 13 and 21 training rows and 9 or 11 neighbours, some labels and neighbours fixed"
PROPS["P26"]["instances"] += [I("knn_vote", n=13, k=9, m=1, fail=0), I("knn_vote", n=21, k=11, m=2, fail=0)]
PROPS["P32"]["instances"] += [M("refit", 13, 2, 1, na=2, ca=1, k=2, center=1)]
PROPS["P33"]["instances"] += [M("rows", 13, 2, 1, r=2, k=2, center=1)]
PROPS["P34"]["instances"] += [M("order", 13, 3, 1, k=2, center=1)]
PROPS["P35"]["instances"] += [M("features", 13, 2, 2, k=2, center=1), M("features", 13, 3, 2, k=2, center=1)]
PROPS["P24"]["instances"] += [I("svm", n=5, iters=58, y=5, apart=1)]
PROPS["P28"]["instances"] += [I("dbscan", n=10, d=1, min=2, eps=1, dflt=0, predict=0, star=1), I("dbscan", n=13, d=1, min=3, eps=1, dflt=0, predict=0, star=1)]
PROPS["P33"]["bounds"] += "; batches of two rows that differ in one of two columns only"
PROPS["P33"]["instances"] += [M("rows", m, n, 2, r=2, k=k, iters=i, differ=e) for m, n, k, i in ((0, 3, 1, 2), (1, 2, 1, 2), (2, 3, 1, 2), (3, 2, 1, 2), (4, 2, 1, 2), (5, 4, 1, 2), (6, 2, 1, 2), (7, 2, 1, 2), (8, 2, 1, 2), (9, 2, 1, 2), (10, 2, 1, 2), (11, 2, 2, 2), (13, 2, 1, 2), (14, 2, 1, 0), (15, 2, 2, 1), (16, 2, 1, 2), (17, 2, 1, 2), (18, 2, 1, 2), (19, 2, 1, 2), (20, 2, 1, 2), (21, 2, 1, 2)) for e in (1, 2)]
_many = dict(first=0, grid=3, lo=5, mix_x=0, mix_q=1, vals=16)
more("P25", "9 or 10 neighbours of 21 rows, 27 or 30 of 41 (fixed rows, one free coordinate of the query)", I("knn", s=0, n=21, d=2, k=9, leaf=2, **_many),
     I("knn", s=0, n=41, d=1, k=27, leaf=2, **_many), *[I("knn", s=s, n=41, d=1, k=30, leaf=9, **_many) for s in (1, 2)], I("knn", s=2, n=21, d=1, k=10, leaf=4, **_many))
