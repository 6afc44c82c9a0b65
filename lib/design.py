"""Writes DESIGN.md from doc/head.md, the properties, doc/tail.md and the seeded bugs."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
from meta import META
from props import PROPS
NOTE = {
    'P01': ("The gradient oracle is the symbolic derivative of the code's own `func`; inverse pairs are composed.", 's'),
    'P02': ('grad_cost is compared entrywise with the derivative of `cost`, and `cost` with the formula.', 's'),
    'P03': ('reg_grad against the derivative of reg_cost at points without zeros. Finding: L2 (below).', 's'),
    'P04': ('Formula per kernel over symbolic vectors and parameters, swap symmetry, sums and products of symbolic kernels.', 's'),
    'P05': ('pdf/logpdf/cdf identities; Gaussian cdf monotone through the sign of its derivative; samples as functions of the standard draw.', 's'),
    'P06': ('Fit, transform, inverse transform on symbolic data; unseen row; refusals for constant columns; non-finite entries are placed concretely.', 's'),
    'P07': ('As P06, with mean and sample variance of the output.', 's'),
    'P08': ('Row norm, direction by cross products, sign; zero rows decided exactly.', 's'),
    'P09': ('Kani: rows stay whole, permutation, and (bijection from draw sequences) uniformity.', '~1 min'),
    'P10': ('Kani: as P09 for the two Fisher-Yates functions.', '~1 min'),
    'P11': ('Kani: positions distinct and inside the pool, counts of k-sets balanced over all draw sequences; the panics by symx.', '~2 min'),
    'P12': ('A recording model sees every training and test matrix; row identity in column 0, symbolic payload in column 1.', '~100 s (Kani part)'),
    'P13': ('Symbolic labels (equality patterns forked) against a counting oracle.', '~10 s'),
    'P14': ('Symbolic labels and 0/1 vectors against the definitions; panics.', 's'),
    'P15': ('Symbolic matrices against the formula.', 's'),
    'P16': ('compute_grad against formula and derivative of the reported cost through a recording optimizer; train/predict plumbing.', 's'),
    'P17': ('Normal equations of the trained parameters, gradient identity, rejection only when the Gram matrix is singular.', '~10 s'),
    'P18': ('Pieces against their formulas; exact maximum likelihood for affine links; fixed point for Bernoulli, Poisson and a family that uses the default methods.', 's'),
    'P19': ('An oracle model returns an arbitrary cost and gradient per call and records where it was asked; the harness re-runs the stated rule beside it, including the stopping rule and the orders of visits.', 's'),
    'P20': ("The same oracle; the result must be an evaluated point whose cost is not above the start's. The line search branches freely on arbitrary costs.", '~2 min'),
    'P21': ('Architectures with symbolic weights and inputs against a straightforward composition; training through a recording optimizer.', '~10 s'),
    'P22': ('compute_grad against the DAG derivative of the reported cost for every weight.', '~20 s'),
    'P23': ('Posterior by cofactors for arbitrary symmetric kernel values; kernel is a table that also checks its arguments.', '~10 s'),
    'P24': ('Kernel table, every draw; the harness replays the stated steps; each sample must be drawable at each step.', 's'),
    'P25': ('Search results against all distances. d=1 fully symbolic rows and queries; d=2 symbolic query over layouts chosen so that pruning decisions matter (found by comparing mutated prunings by brute force), or symbolic first column.', '~2 min'),
    'P26': ('Search is a stand-in with every neighbour set; labels forked; plurality, smallest label on ties.', 's'),
    'P27': ('Symbolic data and initial centroids, the harness repeats the stated iteration; initializers over all draws with their possible outcomes.', '~2.5 min'),
    'P28': ('Reachability oracle over symbolic distances (forked), retraining, prediction.', '~3 min'),
    'P29': ('Membership and EM step identities with exp of quadratic forms as terms; options; refusals.', '~10 s'),
    'P30': ('Per-class statistics, joint log likelihoods, argmax; refusals leave the model as it was.', 's'),
    'P31': ('Centering, projection, orientation and selection under the svd contract; refusals and retraining.', '~40 s'),
    'P32': ('One table of models behind a common interface (h_meta): a model trained on a, then b, against a new one trained on b, for all data and the same draws; after a refused training every answer is compared with the one before. Not the mixture (its second training starts from its trained weights) and not the neural network (it starts from its current weights): both continue by design.', '~10 s'),
    'P33': ('The same table: arbitrary rows asked one at a time, then in batches with every order and repetitions; equal results decided for all models and rows.', '~10 s'),
    'P34': ('The same table: trained on the rows in two generating orders.', '~40 s'),
    'P35': ('The same table: trained and asked with the columns in another order; parameters, centroids and transformed columns are compared after the same permutation.', '~30 s'),
    'P36': ('h_default builds each component twice, without settings and with the documented ones, and runs both on the same arbitrary inputs and draws. AdaGrad documents no defaults; the default logistic regression and the training of the default network would need 100 and 20 nested exponentials and are left out.', '~25 s'),
}

o = open(V + "/doc/head.md").read()
for m in META:
    p, n = PROPS[m["id"]], NOTE.get(m["id"], ("", "s"))
    hs = sorted({i["h"] for i in p["instances"]} | ({"h_rand (Kani)"} if p.get("kani") else set()))
    o += "**%s %s.** %s *Harness:* %s. *Code:* %s. *Bounds:* %s. *Cost (quick):* %s.\n\n" % (m["id"], m["title"], n[0], ", ".join(hs), "; ".join(p["functions"]), p["bounds"], n[1])
o += open(V + "/doc/tail.md").read()
missed = dict(l.split(" ", 1) for l in open(V + "/doc/missed.txt").read().splitlines() if l.strip())
for d in sorted(os.listdir(V + "/seeded")) if os.path.isdir(V + "/seeded") else []:
    j = json.load(open(V + "/seeded/%s/meta.json" % d))
    o += "| %s | %s | %s |\n" % (d, j["needs"], missed.get(d, j["property"] + " quick"))
o += open(V + "/doc/end.md").read()
open(V + "/DESIGN.md", "w").write(o)
