SEEDS = []


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


seed("c01-merge-before-offset", "C01",
 [("utils/knn.py", """        knn_indices_chunk += self.curr_start

        # Merge the old and new top-k indices and distances
        old_knn_indices""", """        if self.curr_start < self.data_size - self.topk:
            knn_indices_chunk += self.curr_start

        # Merge the old and new top-k indices and distances
        old_knn_indices""")],
 "sliced queries and a last data chunk that holds at most topk entries",
 "indices found in a short final data chunk are local instead of global",
 '''
import torch
from ebsdtorch.utils.knn import ChunkedKNN
torch.manual_seed(0)
d = torch.randn(23, 5); q = torch.randn(6, 5)
k = ChunkedKNN(23, 6, 3, torch.device("cpu"), "angular", torch.float32, False)
for s in (10, 10, 3):
    st = k.curr_end
    k.set_data_chunk(d[st:st + s])
    k.query_chunk(q[:4], 0); k.query_chunk(q[4:], 4)
i, v = k.retrieve_topk()
assert torch.allclose(torch.topk(q @ d.T, 3, dim=1)[0], v, atol=1e-5)
assert torch.allclose(torch.gather(q @ d.T, 1, i), v, atol=1e-5), "indices do not belong to the scores"
''')

seed("c01-keep-first-euclid", "C01",
 [("utils/knn.py", """            -torch.inf if self.big_better else torch.inf,""", """            -1.0 if self.big_better else torch.inf,""")],
 "angular metric on data whose best scores are below -1",
 "the initial worst score beats real entries, so indices that were never in the data are returned",
 '''
import torch
from ebsdtorch.utils.knn import ChunkedKNN
d = -torch.rand(12, 4) - 1.0; q = torch.rand(5, 4) + 1.0
k = ChunkedKNN(12, 5, 2, torch.device("cpu"), "angular", torch.float32, False)
k.set_data_chunk(d[:7]); k.query_all(q); k.set_data_chunk(d[7:]); k.query_all(q)
i, v = k.retrieve_topk()
assert torch.allclose(torch.topk(q @ d.T, 2, dim=1)[0], v, atol=1e-5)
''')

seed("c04-count-after-read", "C04",
 [("utils/pca_covmat.py", """            d_sqrt_inv = 1.0 / torch.sqrt(torch.diag(covmat))
""", """            d_sqrt_inv = torch.diagonal(self.covmat_aggregate if self.obs == 2 else covmat).rsqrt_() if self.obs == 2 else 1.0 / torch.sqrt(torch.diag(covmat))
""")],
 "the correlation matrix is read after exactly two observations, then more data arrive",
 "reading overwrites the diagonal of the running second moment",
 '''
import torch
from ebsdtorch.utils.pca_covmat import OnlineCovMatrix
torch.manual_seed(0)
x = torch.randn(20, 3, dtype=torch.float64)
m = OnlineCovMatrix(3, torch.float64, torch.float64, correlation=True)
m(x[:2]); m.get_covmat(); m(x[2:])
assert torch.allclose(m.get_covmat(), torch.corrcoef(x.T), atol=1e-8)
''')

seed("c08-cache-by-product", "C08",
 [("ebsd/master_pattern.py", """            if len(self.factor_dict) > 100:
                self.factor_dict = {}
            self.factor_dict[n_elem] = H_pseudo, W_pseudo""", """            if len(self.factor_dict) > 100:
                H_pseudo, W_pseudo = W_pseudo, H_pseudo
                self.factor_dict = {n_elem + 1: (H_pseudo, W_pseudo)}
            self.factor_dict[n_elem] = H_pseudo, W_pseudo""")],
 "more than 100 different numbers of directions, then one direction more than the call that overflowed the cache",
 "a stale shape survives the cache reset under the wrong number of directions",
 '''
import torch
from ebsdtorch.ebsd.master_pattern import MasterPattern
mp = MasterPattern(torch.rand(8, 16), laue_group=11)
for n in range(1, 140):
    v = torch.randn(n, 3)
    mp.interpolate(v)
for n in range(95, 110):
    out = mp.interpolate(torch.randn(n, 3))
    assert out.shape == (n,)
''')

seed("c09-shared-slot", "C09",
 [("ebsd/master_pattern.py", """        projected_coords_2D = rosca_lambert_side_by_side(coords_3D)
""", """        self._last_coords = rosca_lambert_side_by_side(coords_3D)
        projected_coords_2D = self._last_coords
""")],
 "two threads interpolate the same master pattern and one is preempted between storing and reading the shared slot",
 "a thread gets the values of another thread's directions",
 '''
import sys, threading, torch
from ebsdtorch.ebsd.master_pattern import MasterPattern
mp = MasterPattern(torch.rand(8, 16), laue_group=11)
a, b = torch.randn(6, 3), torch.randn(6, 3)
want = mp.interpolate(a).clone(); mp.interpolate(b)
code = MasterPattern.interpolate.__code__
# preempt the first thread at every line in turn, run the second one there
for stop in range(60):
    state = dict(n=0)
    def local(fr, ev, arg):
        if ev == "line":
            state["n"] += 1
            if state["n"] == stop:
                t = threading.Thread(target=lambda: mp.interpolate(b)); t.start(); t.join()
        return local
    sys.settrace(lambda fr, ev, arg: local if fr.f_code is code else None)
    try:
        got = mp.interpolate(a)
    finally:
        sys.settrace(None)
    assert torch.equal(got, want), f"preempted at line event {stop}"
''')

seed("c10-second-curve", "C10",
 [("utils/factorize.py", """                if g != N:
                    return sorted(next_factor_ecm(g) + next_factor_ecm(N // g))
                else:
                    return next_factor_ecm(N)""", """                if g != N:
                    return sorted(next_factor_ecm(g) + next_factor_ecm(N // g))
                else:
                    return next_factor_ecm(N) if icurve < 1 else [N]""")],
 "two successive random curves on which all prime factors of the integer vanish at the same prime",
 "a composite is reported as a prime factor for unlucky random streams",
 '''
import random
from ebsdtorch.utils.factorize import FactorECM
for seed in range(4000):
    random.seed(seed)
    f = FactorECM(251 * 263)
    assert f == [251, 263], (seed, f)
''')

seed("c24-mask-alias", "C24",
 [("ebsd/geometry.py", """        sample_coordinates = (
            ((rotation_matrix @ pixel_coordinates[..., None]))
            + translation_vector[..., None]
        ).squeeze(-1)

        # if scan""", """        sample_coordinates = (
            ((rotation_matrix @ pixel_coordinates[..., None]))
            + translation_vector[..., None]
        ).squeeze()

        # if scan""")],
 "a single pixel, or scan dimensions of size one",
 "the shape of the projected coordinates depends on sizes, so scan offsets broadcast wrongly",
 '''
import torch
from ebsdtorch.ebsd.geometry import EBSDGeometry
g = EBSDGeometry((8, 8))
with torch.no_grad():
    a = g.project2sample(torch.rand(1, 2))
    assert a.shape == (1, 3), a.shape
    assert g.project2sample(torch.rand(4, 2)).shape == (4, 3)
''')

seed("c02-count-first", "C02",
 [("utils/knn.py", """        data_chunk = data_chunk.to(self.match_dtype).to(self.match_device)

        # Quantize""", """        self.curr_start = self.curr_end
        data_chunk = data_chunk.to(self.match_dtype).to(self.match_device)

        # Quantize"""), ("utils/knn.py", """        self.curr_end += data_chunk.shape[0]
        self.curr_start = self.curr_end - data_chunk.shape[0]
""", """        self.curr_end += data_chunk.shape[0]
""")],
 "setting a data chunk fails and queries for the chunk before it are still delivered",
 "late query slices of the previous chunk get the indices of the failed one",
 '''
import torch
from torch.utils._python_dispatch import TorchDispatchMode
from ebsdtorch.utils.knn import ChunkedKNN
torch.manual_seed(0)
d, q = torch.randn(20, 4), torch.randn(6, 4)
k = ChunkedKNN(20, 6, 1, torch.device("cpu"), "angular", torch.float32, False)
k.set_data_chunk(d[:10]); k.query_chunk(q[:3], 0)
class Bad:
    shape = (10, 4)
    def to(self, *a): raise torch.OutOfMemoryError("injected")
try: k.set_data_chunk(Bad())
except torch.OutOfMemoryError: pass
k.query_chunk(q[3:], 3)
k.set_data_chunk(d[10:]); k.query_all(q)
assert torch.equal(k.retrieve_topk()[0], torch.topk(q @ d.T, 1, dim=1)[1])
''')

seed("c05-count-first", "C05",
 [("utils/pca_covmat.py", """    # update the global mean
    new_mean = (current_mean * current_obs + batch_mean * N) / (current_obs + N)
""", """    # update the global mean and the number of observations
    current_obs += N
    new_mean = (current_mean * (current_obs - N) + batch_mean * N) / current_obs
"""), ("utils/pca_covmat.py", """    weight = (current_obs * N).to(current_covmat.dtype) / (current_obs + N)
""", """    weight = ((current_obs - N) * N).to(current_covmat.dtype) / current_obs
"""), ("utils/pca_covmat.py", """    # update the number of observations and mean
    current_obs += N
""", """    # update the mean
""")],
 "a batch with the wrong number of features, or running out of memory inside an update",
 "observations of a rejected batch are counted",
 '''
import torch
from ebsdtorch.utils.pca_covmat import OnlineCovMatrix
torch.manual_seed(0)
x = torch.randn(20, 3)
m = OnlineCovMatrix(3)
m(x[:10])
try: m(torch.randn(4, 5))
except RuntimeError: pass
m(x[10:])
assert torch.allclose(m.get_covmat(), torch.cov(x.T), atol=1e-5)
''')

seed("c05-step-first", "C05",
 [("utils/pca_online.py", """        # Update then Orthonormalize Q_t using QR decomposition
        Q = torch.linalg.qr(self.Q + self.eta * (x.T @ (x @ self.Q)))[0]
""", """        # Update then Orthonormalize Q_t using QR decomposition
        self.Q.add_(x.T @ (x @ self.Q), alpha=self.eta)
        Q = torch.linalg.qr(self.Q)[0]
""")],
 "the orthonormalisation fails (out of memory, no convergence) after the gradient step",
 "the basis keeps the gradient step of a failed update",
 '''
import torch
from ebsdtorch.utils.pca_online import OjaPCA
torch.manual_seed(0)
m = OjaPCA(6, 2); x = torch.randn(5, 6)
m(x); a = m.transform(x).clone()
real = torch.linalg.qr
def boom(*a, **k): raise torch.OutOfMemoryError("injected")
torch.linalg.qr = boom
try: m(x)
except torch.OutOfMemoryError: pass
finally: torch.linalg.qr = real
assert torch.equal(m.transform(x), a)
''')

seed("c06-next-col", "C06",
 [("utils/pca_online.py", """            self.register_buffer("next_col_to_init", torch.tensor(0, dtype=torch.int64))""", """            self.register_buffer(
                "next_col_to_init", torch.tensor(0, dtype=torch.int64), persistent=False
            )""")],
 "Oja++ saved after its first column activation, restored and continued",
 "the restored estimator activates columns again that were active already",
 '''
import torch
from ebsdtorch.utils.pca_online import OjaPCA
torch.manual_seed(0)
m = OjaPCA(6, 4, use_oja_plus=True)
for _ in range(3): m(torch.randn(5, 6))
n = OjaPCA(6, 4, use_oja_plus=True); n.load_state_dict(m.state_dict())
assert int(n.next_col_to_init) == int(m.next_col_to_init)
''')

seed("c07-batch-norm", "C07",
 [("utils/pca_online.py", """        alpha = self.eta / (1.0 + self.eta * torch.norm(latent, dim=0))
""", """        alpha = self.eta / (1.0 + self.eta * torch.norm(latent, dim=0, keepdim=True).amax(1))
""")],
 "a batch whose rows project to different lengths",
 "the step of every row is limited by the longest row of its batch",
 '''
import torch
from ebsdtorch.utils.pca_online import KrasulinaPCA
torch.manual_seed(0)
m = KrasulinaPCA(5, 2, dtype=torch.float64)
C = m.C.clone(); x = torch.randn(4, 5, dtype=torch.float64) * torch.tensor([[0.1], [1], [5], [20]])
P = torch.linalg.pinv(C); z = P @ x.T; r = x.T - C @ z
want = C + ((0.5 / (1 + 0.5 * z.norm(dim=0))) * r) @ z.T
m(x)
assert torch.allclose(m.C, want, atol=1e-8)
''')

seed("c11-half-mean", "C11",
 [("ebsd/indexing.py", """            if experiment_chunk_size > experiment_patterns.n_patterns:
                exp_pats = experiment_patterns.get_patterns(
                    torch.arange(experiment_patterns.n_patterns),
                    binning=virtual_binning,
                ).view(experiment_patterns.n_patterns, -1)

                # query all the experiment patterns
                # first apply the signal mask if provided
                if signal_mask is not None:
                    exp_pats = exp_pats[:, signal_mask.flatten()]

                # subtract the mean from each pattern and query the KNN object
                if subtract_exp_pat_mean:
                    exp_pats = exp_pats - torch.mean(exp_pats, dim=-1, keepdim=True)
                knn.query_all(exp_pats)
""", """            if experiment_chunk_size > experiment_patterns.n_patterns:
                exp_pats = experiment_patterns.get_patterns(
                    torch.arange(experiment_patterns.n_patterns),
                    binning=virtual_binning,
                ).view(experiment_patterns.n_patterns, -1)

                # subtract the mean from each pattern and query the KNN object
                if subtract_exp_pat_mean:
                    exp_pats = exp_pats - torch.mean(exp_pats, dim=-1, keepdim=True)

                # query all the experiment patterns
                # apply the signal mask if provided
                if signal_mask is not None:
                    exp_pats = exp_pats[:, signal_mask.flatten()]
                knn.query_all(exp_pats)
""")],
 "a signal mask, mean subtraction, a distance metric sensitive to the mean, and one chunk larger than the scan",
 "the mean of the whole pattern instead of the masked one is removed, so the best match depends on the experiment chunk size",
 '''
import io, contextlib, torch
from ebsdtorch.ebsd.indexing import dictionary_index_orientations
from ebsdtorch.ebsd.master_pattern import MasterPattern
from ebsdtorch.ebsd.experiment_pats import ExperimentPatterns
from ebsdtorch.ebsd.geometry import EBSDGeometry
torch.manual_seed(0)
mp = MasterPattern(torch.rand(21, 42), laue_group=11)
g = EBSDGeometry((6, 6))
pats = torch.rand(5, 6, 6) + 3
mask = torch.zeros(6, 6, dtype=torch.bool); mask[:, :3] = True
pats[:, :, 3:] += 5
out = []
for ch in (2, 100):
    e = ExperimentPatterns(pats.clone())
    torch.manual_seed(1)
    with contextlib.redirect_stdout(io.StringIO()):
        dictionary_index_orientations(mp, g, e, signal_mask=mask, experiment_chunk_size=ch, dictionary_resolution_degrees=12.0, dictionary_chunk_size=64, distance_metric="euclidean", match_dtype=torch.float32, quantized_if_x86=False)
    out.append(e.best_metrics)
assert torch.allclose(out[0], out[1], atol=1e-4), out
''')

seed("c11-last-chunk-squeeze", "C11",
 [("ebsd/indexing.py", """            # must remove mean from each simulated pattern
            simulated_patterns = simulated_patterns - torch.mean(
                simulated_patterns,
                dim=-1,
                keepdim=True,
            )

            # set the data for the KNN object
            knn.set_data_chunk(simulated_patterns)
""", """            # must remove mean from each simulated pattern
            if len(ori_batch) == dictionary_chunk_size:
                simulated_patterns = simulated_patterns - torch.mean(
                    simulated_patterns,
                    dim=-1,
                    keepdim=True,
                )

            # set the data for the KNN object
            knn.set_data_chunk(simulated_patterns)
""")],
 "a dictionary that does not divide evenly into chunks and patterns whose mean is not removed",
 "entries of the last chunk keep their mean and win or lose against the others for it",
 '''
import io, contextlib, torch
from ebsdtorch.ebsd.indexing import dictionary_index_orientations
from ebsdtorch.ebsd.master_pattern import MasterPattern
from ebsdtorch.ebsd.experiment_pats import ExperimentPatterns
from ebsdtorch.ebsd.geometry import EBSDGeometry
torch.manual_seed(0)
mp = MasterPattern(torch.rand(21, 42) + 2, laue_group=11)
g = EBSDGeometry((6, 6))
pats = torch.rand(5, 6, 6)
out = []
for ch in (1, 50, 100000):
    e = ExperimentPatterns(pats.clone())
    torch.manual_seed(1)
    with contextlib.redirect_stdout(io.StringIO()):
        dictionary_index_orientations(mp, g, e, dictionary_resolution_degrees=12.0, dictionary_chunk_size=ch, subtract_exp_pat_mean=False, match_dtype=torch.float32, quantized_if_x86=False)
    out.append(e.best_metrics)
assert torch.allclose(out[0], out[1], atol=1e-4) and torch.allclose(out[0], out[2], atol=1e-4), out
''')

seed("c12-learn-index", "C12",
 [("ebsd/indexing.py", """        if dictionary_resolution_learn_deg != dictionary_resolution_index_deg:
""", """        if dictionary_resolution_learn_deg > dictionary_resolution_index_deg:
""")],
 "components learned on a finer dictionary than the one that is indexed",
 "the fine learning dictionary is searched instead of the requested coarse one",
 '''
import io, contextlib, torch
from ebsdtorch.ebsd.indexing import pca_dictionary_index_orientations
from ebsdtorch.ebsd.master_pattern import MasterPattern
from ebsdtorch.ebsd.experiment_pats import ExperimentPatterns
from ebsdtorch.ebsd.geometry import EBSDGeometry
from ebsdtorch.s2_and_so3.laue_fz_ori import sample_ori_fz_laue_angle
torch.manual_seed(0)
mp = MasterPattern(torch.rand(21, 42), laue_group=11)
e = ExperimentPatterns(torch.rand(8, 6, 6))
with contextlib.redirect_stdout(io.StringIO()):
    pca_dictionary_index_orientations(mp, EBSDGeometry((6, 6)), e, n_pca_components=5, dictionary_resolution_learn_deg=10.0, dictionary_resolution_index_deg=20.0, match_dtype=torch.float32, quantized_via_ao=False)
d = sample_ori_fz_laue_angle(laue_id=11, angular_resolution_deg=20.0, device=torch.device("cpu"))
near = (e.get_orientations().to(d.dtype) @ d.T).abs().max(1)[0]
assert bool((near > 1 - 1e-5).all()), near
''')

seed("c16-loss-mean", "C16",
 [("ebsd/refining.py", """            # make the quaternions have positive scalar part
            qu_current *= (qu_current[..., :1] >= 0).float() * 2 - 1
""", """            # make the quaternions have positive scalar part
            if (qu_current[..., 0] < 0).any():
                qu_current = torch.stack(
                    (qu_current[..., 0].abs(), *qu_current[..., 1:].unbind(-1)), dim=-1
                )
"""), ("ebsd/refining.py", """                updates = get_dot_products(qu_current) > initial_dots
""", """                updates = dot_products.detach() > initial_dots
""")],
 "an orientation near a half turn whose scalar part changes sign during refinement",
 "the sign change inverts the rotation and the worse orientation is stored",
 '''
import io, contextlib, torch
from ebsdtorch.ebsd.refining import orientation_grad_refinement
from ebsdtorch.ebsd.master_pattern import MasterPattern
from ebsdtorch.ebsd.experiment_pats import ExperimentPatterns
from ebsdtorch.ebsd.geometry import EBSDGeometry
from ebsdtorch.s2_and_so3.quaternions import qu_apply
torch.manual_seed(0)
i = torch.linspace(0, 3, 61)
mp = MasterPattern(torch.cat([torch.sin(i)[:, None] * torch.cos(i * 1.3)[None] + i[:, None] * 0.2] * 2, 1).contiguous(), laue_group=1)
g = EBSDGeometry((6, 6))
c = g.get_coords_sample_frame(binning=(1, 1)).detach().view(-1, 3); c = c / c.norm(dim=-1, keepdim=True)
def sim(q):
    p = mp.interpolate(qu_apply(q[:, None], c[None]), mode="bicubic", align_corners=True, normalize_coords=False)
    p = p - p.mean(-1, keepdim=True); return p / p.norm(dim=-1, keepdim=True)
def score(q, pats):
    p = pats.view(len(pats), -1); p = p - p.mean(-1, keepdim=True); p = p / p.norm(dim=-1, keepdim=True)
    return (sim(q) * p).sum(-1)
worst = 0.0
for s in range(6):
    torch.manual_seed(s)
    v = torch.randn(16, 4); v[:, 0] = 0; v = v / v.norm(dim=1, keepdim=True)
    t = v.clone(); t[:, 0] = -0.06; t = t / t.norm(dim=1, keepdim=True)
    q = v.clone(); q[:, 0] = 0.003; q = q / q.norm(dim=1, keepdim=True)
    pats = sim(t).view(16, 6, 6).clone()
    e = ExperimentPatterns(pats); e.set_orientations(q.clone()); e.phases = torch.zeros(16, dtype=torch.uint8)
    a = score(q, pats)
    with contextlib.redirect_stdout(io.StringIO()):
        orientation_grad_refinement(mp, g, e, batch_size=16, n_iter=12, learning_rate=0.004, match_dtype=torch.float32)
    worst = min(worst, float((score(e.get_orientations(), pats) - a).min()))
assert worst > -1e-4, worst
''')

seed("c02-index-first", "C02",
 [("utils/knn.py", """        merged_knn_indices = torch.cat((old_knn_indices, knn_indices_chunk), dim=1)
        topk_indices = torch.topk(
            merged_knn_distances,
            self.topk,
            dim=1,
            largest=self.big_better,
            sorted=False,
        )[1]
        new_knn_indices = torch.gather(merged_knn_indices, 1, topk_indices)
""", """        topk_indices = torch.topk(
            merged_knn_distances,
            self.topk,
            dim=1,
            largest=self.big_better,
            sorted=False,
        )[1]
        # gather straight into the result
        new_knn_indices = torch.gather(
            torch.cat((old_knn_indices, knn_indices_chunk), dim=1),
            1,
            topk_indices,
            out=old_knn_indices,
        )
""")],
 "the allocation of the new distances fails after the new indices were stored",
 "indices of the failed step stay next to the scores of the step before",
 '''
import torch
from torch.utils._python_dispatch import TorchDispatchMode
from ebsdtorch.utils.knn import ChunkedKNN
class Fail(TorchDispatchMode):
    def __init__(self, at): super().__init__(); self.at, self.n = at, 0
    def __torch_dispatch__(self, f, t, a=(), k=None):
        if any(x.alias_info is not None for x in f._schema.arguments): return f(*a, **(k or {}))
        self.n += 1
        if self.n == self.at: raise torch.OutOfMemoryError("injected")
        return f(*a, **(k or {}))
torch.manual_seed(0)
d, q = torch.randn(20, 4), torch.randn(6, 4)
for at in range(1, 60):
    k = ChunkedKNN(20, 6, 2, torch.device("cpu"), "angular", torch.float32, False)
    k.set_data_chunk(d[:10]); k.query_all(q); k.set_data_chunk(d[10:])
    a = [x.clone() for x in k.retrieve_topk()]
    try:
        with Fail(at): k.query_chunk(q[:3], 0)
        break
    except Exception:
        b = k.retrieve_topk()
        assert torch.equal(a[0], b[0]) and torch.equal(a[1], b[1]), at
''')


seed("c15-whole-batch-shrink", "C15",
 [("ebsd/refining.py", """                cu_grid_current[
                    (best_indices == ((cu_grid_current.shape[1] - 1) / 2))
                ] *= shrink_factor
""", """                if (best_indices == ((cu_grid_current.shape[1] - 1) / 2)).any():
                    cu_grid_current *= shrink_factor
""")],
 "a batch in which one pattern has its best match at the grid centre before another one",
 "the grid of a pattern shrinks because of other patterns of its batch",
 '''
import io, contextlib, torch
from ebsdtorch.ebsd.refining import orientation_grid_refinement
from ebsdtorch.ebsd.master_pattern import MasterPattern
from ebsdtorch.ebsd.experiment_pats import ExperimentPatterns
from ebsdtorch.ebsd.geometry import EBSDGeometry
from ebsdtorch.s2_and_so3.quaternions import qu_apply
torch.manual_seed(0)
x = torch.linspace(0, 6, 41)
mp = MasterPattern(torch.cat([torch.sin(x)[:, None] * torch.cos(2 * x)[None]] * 2, 1).contiguous(), laue_group=1)
q = torch.randn(12, 4); q = q / q.norm(dim=1, keepdim=True); q = q * q[:, :1].sign()
g = EBSDGeometry((8, 8))
d = g.get_coords_sample_frame((1, 1)).detach().view(-1, 3); d = d / d.norm(dim=-1, keepdim=True)
pats = mp.interpolate(qu_apply(q[:, None], d[None]), mode="bilinear", align_corners=True, normalize_coords=False, virtual_binning=1).view(12, 8, 8)
start = q.clone(); start[::2] = torch.nn.functional.normalize(start[::2] + 0.03 * torch.randn(6, 4), dim=1)
out = []
for b in (1, 12):
    e = ExperimentPatterns(pats.clone()); e.set_orientations(start.clone()); e.phases = torch.zeros(12, dtype=torch.uint8)
    with contextlib.redirect_stdout(io.StringIO()):
        orientation_grid_refinement(mp, g, e, grid_semi_edge_in_degrees=5.0, batch_size=b, n_iter=5, match_dtype=torch.float32)
    out.append(e.get_orientations())
assert torch.allclose(out[0], out[1], atol=1e-4)
''')


seed("c03-shared-merge", "C03",
 [("utils/knn.py", """        merged_knn_indices = torch.cat((old_knn_indices, knn_indices_chunk), dim=1)
        topk_indices = torch.topk(
            merged_knn_distances,
            self.topk,
            dim=1,
            largest=self.big_better,
            sorted=False,
        )[1]
        new_knn_indices = torch.gather(merged_knn_indices, 1, topk_indices)
""", """        self.merged_knn_indices = torch.cat(
            (old_knn_indices, knn_indices_chunk), dim=1
        )
        topk_indices = torch.topk(
            merged_knn_distances,
            self.topk,
            dim=1,
            largest=self.big_better,
            sorted=False,
        )[1]
        new_knn_indices = torch.gather(self.merged_knn_indices, 1, topk_indices)
""")],
 "two threads deliver disjoint slices and one is preempted between merging and gathering the candidates",
 "a query gets the candidates of another thread's slice",
 '''
import sys, threading, torch
from ebsdtorch.utils.knn import ChunkedKNN
torch.manual_seed(0)
d, q = torch.randn(20, 4), torch.randn(6, 4)
want = torch.topk(q @ d.T, 1, dim=1)[1]
code = ChunkedKNN.query_chunk.__code__
for stop in range(1, 60):
    k = ChunkedKNN(20, 6, 1, torch.device("cpu"), "angular", torch.float32, False)
    k.set_data_chunk(d)
    state = dict(n=0)
    def local(fr, ev, arg):
        if ev == "line":
            state["n"] += 1
            if state["n"] == stop:
                t = threading.Thread(target=lambda: k.query_chunk(q[3:], 3)); t.start(); t.join(5)
        return local
    sys.settrace(lambda fr, ev, arg: local if fr.f_code is code else None)
    try: k.query_chunk(q[:3], 0)
    finally: sys.settrace(None)
    if state["n"] < stop: break
    assert torch.equal(k.retrieve_topk()[0], want), stop
''')

seed("c13-manhattan-sign", "C13",
 [("ebsd/indexing.py", """    # combine the indexing results
    experiment_patterns.combine_indexing_results(
        higher_is_better=(distance_metric == "angular")
    )


def pca_dictionary_index_orientations(""", """    # combine the indexing results
    experiment_patterns.combine_indexing_results(
        higher_is_better=(distance_metric != "euclidean")
    )


def pca_dictionary_index_orientations(""")],
 "two phases and the manhattan metric",
 "the worse phase wins",
 '''
import io, contextlib, torch
from ebsdtorch.ebsd.indexing import dictionary_index_orientations
from ebsdtorch.ebsd.master_pattern import MasterPattern
from ebsdtorch.ebsd.experiment_pats import ExperimentPatterns
from ebsdtorch.ebsd.geometry import EBSDGeometry
torch.manual_seed(0)
mps = [MasterPattern(torch.rand(21, 21), laue_group=11) for _ in range(2)]
e = ExperimentPatterns(torch.rand(6, 6, 6))
with contextlib.redirect_stdout(io.StringIO()):
    dictionary_index_orientations(mps, EBSDGeometry((6, 6)), e, dictionary_resolution_degrees=20.0, distance_metric="manhattan", match_dtype=torch.float32)
m = torch.stack([e.raw_indexing_results[p][1][:, 0] for p in range(2)])
assert torch.equal(e.best_metrics, m.min(0).values), (e.best_metrics, m)
''')

seed("c14-store-each-step", "C14",
 [("ebsd/refining.py", """                # update the grid size is the center was the best
                cu_grid_current[
                    (best_indices == ((cu_grid_current.shape[1] - 1) / 2))
                ] *= shrink_factor

            # update the experiment patterns
            experiment_patterns.set_orientations(qu_current, indices_batch)
""", """                # update the experiment patterns
                experiment_patterns.set_orientations(qu_current, indices_batch)

                # update the grid size is the center was the best
                cu_grid_current[
                    (best_indices == ((cu_grid_current.shape[1] - 1) / 2))
                ] *= shrink_factor
""")],
 "an interruption in a batch after the first of several refinement steps",
 "half-refined orientations are stored",
 '''
import io, contextlib, sys, torch
from ebsdtorch.ebsd import refining
from ebsdtorch.ebsd.master_pattern import MasterPattern
from ebsdtorch.ebsd.experiment_pats import ExperimentPatterns
from ebsdtorch.ebsd.geometry import EBSDGeometry
torch.manual_seed(0)
mp = MasterPattern(torch.rand(31, 31), laue_group=11)
g = EBSDGeometry((6, 6)); pats = torch.rand(3, 6, 6)
q = torch.nn.functional.normalize(torch.tensor([[1.0, 0.1, 0.05, 0.02]]).repeat(3, 1), dim=1)
def run(stop):
    e = ExperimentPatterns(pats.clone()); e.set_orientations(q.clone()); e.phases = torch.zeros(3, dtype=torch.uint8)
    n = [0]
    def count(*a, **k):
        n[0] += 1
        if n[0] == stop: raise KeyboardInterrupt
        return real(*a, **k)
    real = mp.interpolate
    mp.interpolate = count
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            refining.orientation_grid_refinement(mp, g, e, 2.0, 8, n_iter=4, match_dtype=torch.float32)
    except KeyboardInterrupt: pass
    finally: del mp.interpolate
    return e.get_orientations()
done = run(0)
for stop in (1, 2, 3, 4):
    o = run(stop)
    assert torch.equal(o, q) or torch.equal(o, done), stop
''')

seed("c17-contiguous-run", "C17",
 [("ebsd/experiment_pats.py", """        pats = self.patterns[indices]

        # use avg pooling""", """        if indices.dtype != torch.bool and (indices[1:] - indices[:-1] == 1).all():
            # a contiguous run of patterns needs no copy
            pats = self.patterns[int(indices[0]) : int(indices[-1]) + 1]
        else:
            pats = self.patterns[indices]

        # use avg pooling""")],
 "consecutive indices counted from the end, or patterns read and then cleaned up",
 "the returned patterns change with the store, or are missing",
 '''
import torch
from ebsdtorch.ebsd.experiment_pats import ExperimentPatterns
x = torch.rand(4, 4, 4)
e = ExperimentPatterns(x.clone())
p = e.get_patterns(torch.arange(2), binning=1)
e.subtract_overall_background()
assert torch.equal(p, x[:2])
e = ExperimentPatterns(x.clone())
assert torch.equal(e.get_patterns(torch.tensor([-2, -1]), binning=1), x[-2:])
''')

seed("c18-nlpar-reuse", "C18",
 [("preprocessing/nlpar.py", """    denoised = torch.zeros_like(data)
""", """    # the padded copy holds the input, so its memory can take the result
    denoised = data.zero_()
""")],
 "running out of memory while the weighted average is formed",
 "the patterns are lost when the step fails",
 '''
import torch
from torch.utils._python_dispatch import TorchDispatchMode
from ebsdtorch.ebsd.experiment_pats import ExperimentPatterns
class Fail(TorchDispatchMode):
    def __init__(self, at): super().__init__(); self.at, self.n = at, 0
    def __torch_dispatch__(self, f, t, a=(), k=None):
        if any(x.alias_info is not None for x in f._schema.arguments): return f(*a, **(k or {}))
        self.n += 1
        if self.n == self.at: raise torch.OutOfMemoryError("injected")
        return f(*a, **(k or {}))

torch.manual_seed(0)
x = torch.rand(3, 3, 6, 6)
at = 0
while True:
    at += 1
    e = ExperimentPatterns(x.clone())
    try:
        with Fail(at): e.do_nlpar(1)
        break
    except Exception as err:
        assert torch.equal(e.patterns, x.view(9, 6, 6)), at
''')

seed("c08-norm-in-place", "C08",
 [("ebsd/master_pattern.py", """            coords_3D = coords_3D / torch.norm(coords_3D, dim=-1, keepdim=True)
""", """            coords_3D = coords_3D.div_(torch.norm(coords_3D, dim=-1, keepdim=True))
""")],
 "coordinates that are not yet normalised and are used again by the caller",
 "asking for values rescales the caller's coordinates",
 '''
import torch
from ebsdtorch.ebsd.master_pattern import MasterPattern
mp = MasterPattern(torch.rand(9, 9), laue_group=11)
c = torch.randn(5, 3) * 3
k = c.clone()
mp.interpolate(c)
assert torch.equal(c, k)
''')

seed("c09-read-back", "C09",
 [("ebsd/master_pattern.py", """            self.factor_dict[n_elem] = H_pseudo, W_pseudo

        projected_coords_2D""", """            self.factor_dict[n_elem] = H_pseudo, W_pseudo
            H_pseudo, W_pseudo = self.factor_dict[n_elem]

        projected_coords_2D"""), ("ebsd/master_pattern.py", """            H_pseudo, W_pseudo = nearly_square_factors(n_elem)
            if len(""", """            factors = nearly_square_factors(n_elem)
            H_pseudo, W_pseudo = factors
            if len(""")],
 "a second thread that overflows the shape cache between the store and the read",
 "one of the threads fails with a KeyError",
 '''
import sys, threading, torch
from ebsdtorch.ebsd.master_pattern import MasterPattern
mp = MasterPattern(torch.rand(9, 9), laue_group=11)
for n in range(1, 101): mp.interpolate(torch.randn(n, 3))
class D(dict):  # another thread runs right after this thread's entry was stored
    armed = True
    def __setitem__(self, k, v):
        super().__setitem__(k, v)
        if D.armed and k == 101:
            D.armed = False
            t = threading.Thread(target=mp.interpolate, args=(torch.randn(102, 3),)); t.start(); t.join()
mp.factor_dict = D(mp.factor_dict)
mp.interpolate(torch.randn(101, 3))
''')

seed("c10-unsorted-parts", "C10",
 [("utils/factorize.py", "return sorted(next_factor_ecm(g) + next_factor_ecm(N // g))", "return next_factor_ecm(g) + next_factor_ecm(N // g)")],
 "a composite above 65536 whose curve finds the larger cofactor first",
 "the factors are not in ascending order, so the two factors are not nearly square",
 '''
import random
from ebsdtorch.utils.factorize import FactorECM
for s in range(40):
    random.seed(s)
    for n in (65537 * 3 * 5, 101 * 103 * 107, 257 * 263 * 2 * 3, 1009 * 1013, 2 * 3 * 5 * 7 * 11 * 13 * 17):
        f = FactorECM(n)
        assert f == sorted(f), (s, n, f)
''')

seed("c19-clamp-depth", "C19",
 [("simulation/monte_carlo.py", """        depths[reset_mask] = 0
""", """        depths.clamp_(min=0)
""")],
 "an electron that is still inside the sample after the last allowed step",
 "the next electron starts deep in the sample with full energy",
 '''
import io, contextlib, torch
from ebsdtorch.simulation import monte_carlo as m
def run(max_steps):
    torch.manual_seed(3)
    with contextlib.redirect_stdout(io.StringIO()):
        return m.bse_sim_mc(starting_E_keV=20.0, n_exit_energy_bins=10, n_exit_direction_bins=5, n_exit_depth_bins=40, binsize_exit_energy=1.0,
            binsize_exit_depth=5.0, atom_num=28.0, unit_cell_density_rho=8.9, atomic_weight_A=58.7, n_electrons=400, n_bse_electrons_max=10**9,
            n_simulations_max=40000, n_max_steps=max_steps, sigma=70.0, omega=0.0, dtype=torch.float32, device=torch.device("cpu"))
# with at most two scattering events each, a few electrons in a hundred come back
a = run(1)
assert a.sum() > 300, a.sum()
''')

seed("c20-params-alias", "C20",
 [("crystallography/ebsd_mc.py", """        simulation_params = self.base_simulation_params.copy()
        if n_electrons""", """        simulation_params = self.base_simulation_params
        if n_electrons""")],
 "a run with an explicit number of electrons followed by one with the default",
 "the later run silently uses the earlier number of electrons",
 '''
import sys, types, io, contextlib
import numpy as np, torch
cl = types.ModuleType("pyopencl"); cla = types.ModuleType("pyopencl.array"); cl.array = cla
sys.modules.update({"pyopencl": cl, "pyopencl.array": cla})
from ebsdtorch.crystallography import ebsd_mc as m
seen = []
def fake(material, params):
    seen.append(params["n_electrons"])
    return np.ones((params["n_exit_energy_bins"], params["n_exit_depth_bins"], 3, 3), dtype=np.uint32) * 10**6
m.run_monte_carlo_simulation = fake
t = lambda v: torch.tensor(v)
cell = types.SimpleNamespace(get_average_atomic_number=t(28.0), get_density=t(8.9), get_average_atomic_weight=t(58.7))
with contextlib.redirect_stdout(io.StringIO()):
    s = m.MonteCarloSimulator(cell, kV=20.0, incidence_angle=70.0, n_direction_bins=3, n_max_steps_override=100)
    s.run_simulation(n_electrons=1000)
    s.run_simulation()
assert seen == [1000, 1_000_000], seen
''')

seed("c20-adjacent-seeds", "C20",
 [("crystallography/ebsd_mc.py", """            np.random.randint(0, 2**32, size=(self.n_electrons, 4), dtype=np.uint32),
""", """            np.random.randint(0, 2**32, size=(1, 4), dtype=np.uint32)
            + np.arange(self.n_electrons, dtype=np.uint32)[:, None],
""")],
 "two work items whose seeds differ only in bits that the generator ignores",
 "neighbouring work items replay the same random stream",
 '''
import sys, types
import numpy as np
got = []
cl = types.ModuleType("pyopencl"); cla = types.ModuleType("pyopencl.array"); cl.array = cla
cl.create_some_context = lambda: None
cl.CommandQueue = lambda c: None
cl.Program = lambda c, s: types.SimpleNamespace(build=lambda: None)
cla.zeros = lambda q, s, dtype: None
cla.to_device = lambda q, a: got.append(np.asarray(a))
sys.modules.update({"pyopencl": cl, "pyopencl.array": cla})
from ebsdtorch.crystallography import ebsd_mc as m
np.random.seed(0)
m.OpenCLMonteCarlo(dict(n_electrons=64, n_exit_energy_bins=2, n_exit_depth_bins=2, n_exit_direction_bins=3))
# the bits of the four words that the lfsr113 generator uses
used = got[0] & np.array([0xFFFFFFFE, 0xFFFFFFF8, 0xFFFFFFF0, 0xFFFFFF80], dtype=np.uint32)
assert len({tuple(r) for r in used.tolist()}) == 64
''')

seed("c21-int-counts", "C21",
 [("io/read_master_pattern.py", """        e_accum = f["EMData/MCOpenCL/accum_e"][:].astype(np.float32)
""", """        # the counts stay integers
        e_accum = f["EMData/MCOpenCL/accum_e"][:].astype(np.int32)
"""), ("io/read_master_pattern.py", "probabilities = e_accum.sum(axis=(0, 1))", "probabilities = e_accum.sum(axis=(0, 1), dtype=np.int32)")],
 "more than 2**31 backscattered electrons in one energy bin of the file",
 "the weights of the energies overflow and the summed pattern is wrong",
 '''
import os, tempfile, h5py, numpy as np, torch
from ebsdtorch.io.read_master_pattern import read_master_pattern
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "m.h5")
    acc = np.full((5, 5, 2), 1000, dtype=np.int32)
    acc[..., 1] = 1.5e8
    n = np.random.default_rng(0).random((1, 2, 7, 7)).astype(np.float32)
    with h5py.File(p, "w") as f:
        f["EMData/MCOpenCL/accum_e"] = acc
        f["EMData/EBSDmaster/mLPNH"] = n
        f["EMData/EBSDmaster/mLPSH"] = n
        f["CrystalData/SpaceGroupNumber"] = np.array([225], dtype=np.int32)
    got = read_master_pattern(p).master_pattern
    w = acc.astype(np.float64).sum(axis=(0, 1)); w /= w.sum()
    want = (w[:, None, None] * n[0]).sum(axis=0)
    assert np.allclose(got[:, :7].numpy(), want, atol=1e-4)
''')

seed("c21-close-at-end", "C21",
 [("io/read_master_pattern.py", """    with hf.File(file_path, "r") as f:
        # load in (H, W, n_energies) square lambert projection Monte Carlo data
        e_accum = f["EMData/MCOpenCL/accum_e"][:].astype(np.float32)

        # load in the actual master patterns per energy
        # mLPNH = modified Lambert projection of North hemisphere
        # this will be (1, n_energies, H, W) shaped
        north_master_patterns = (
            f["EMData/EBSDmaster/mLPNH"][:].astype(np.float32).squeeze()
        )
        south_master_patterns = (
            f["EMData/EBSDmaster/mLPSH"][:].astype(np.float32).squeeze()
        )

        # load the space group number to have the Laue group
        space_group = f["CrystalData/SpaceGroupNumber"][0]
""", """    f = hf.File(file_path, "r")
    # load in (H, W, n_energies) square lambert projection Monte Carlo data
    e_accum = f["EMData/MCOpenCL/accum_e"][:].astype(np.float32)

    # load in the actual master patterns per energy
    # mLPNH = modified Lambert projection of North hemisphere
    # this will be (1, n_energies, H, W) shaped
    try:
        north_master_patterns = (
            f["EMData/EBSDmaster/mLPNH"][:].astype(np.float32).squeeze()
        )
        south_master_patterns = (
            f["EMData/EBSDmaster/mLPSH"][:].astype(np.float32).squeeze()
        )

        # load the space group number to have the Laue group
        space_group = f["CrystalData/SpaceGroupNumber"][0]
    finally:
        f.close()
""")],
 "a file without Monte Carlo data, whose error is kept by the caller",
 "the file stays open after the failed load",
 '''
import os, tempfile, h5py
from ebsdtorch.io.read_master_pattern import read_master_pattern
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "m.h5")
    with h5py.File(p, "w") as f: f["EMData/x"] = 1
    err = None
    try: read_master_pattern(p)
    except Exception as e: err = e
    assert err is not None
    held = [x for x in os.listdir("/proc/self/fd") if os.path.realpath("/proc/self/fd/" + x) == os.path.realpath(p)]
    assert not held, held
''')

seed("c22-snapshot", "C22",
 [("utils/progressbar.py", """    for i, item in enumerate(it):
""", """    # a source that changes while it is consumed must not confuse the count
    for i, item in enumerate(list(it)):
""")],
 "a source whose items are produced on demand, with a consumer that stops early",
 "the whole source is consumed before the first item is used",
 '''
import io
from ebsdtorch.utils.progressbar import progressbar
class S:
    made = 0
    def __len__(self): return 5
    def __iter__(self):
        for i in range(5):
            S.made += 1
            yield i
for i in progressbar(S(), out=io.StringIO()):
    if i == 1: break
assert S.made == 2, S.made
''')

seed("c22-throttle", "C22",
 [("utils/progressbar.py", """        yield item
        j = i + 1
        x = int(size * j / count)
        seconds_per_iteration = (time.time() - start) / j
""", """        yield item
        j = i + 1
        # a terminal does not need more than ten updates per second
        now = time.time()
        if j > 1 and now - shown < 0.1:
            continue
        shown = now
        x = int(size * j / count)
        seconds_per_iteration = (now - start) / j
""")],
 "items that finish less than a tenth of a second after the last update, or a clock that is set back",
 "the display stops before the true count",
 '''
import io
from ebsdtorch.utils.progressbar import progressbar
o = io.StringIO()
for i in progressbar(range(7), out=o): pass
assert "7/7" in o.getvalue()
''')

seed("c23-dictionary-per-distance", "C23",
 [("ebsd/fitting.py", """    quats_dict = sample_ori_fz_laue_angle(
        laue_id=mp.laue_group,
        angular_resolution_deg=dictionary_resolution_deg,
        device=patterns.device,
    )

    primary""", """    primary"""), ("ebsd/fitting.py", """        rotation_matrix, translation = bruker_geometries_to_SE3(
            pattern_centers=torch.tensor([[0.5, 0.5, pc_z]]""", """        quats_dict = sample_ori_fz_laue_angle(
            laue_id=mp.laue_group,
            angular_resolution_deg=dictionary_resolution_deg,
            device=patterns.device,
        )

        rotation_matrix, translation = bruker_geometries_to_SE3(
            pattern_centers=torch.tensor([[0.5, 0.5, pc_z]]""")],
 "a best detector distance that is not the last one searched",
 "the orientations are looked up in another shuffle of the dictionary",
 '''
import io, contextlib, torch
from ebsdtorch.ebsd.fitting import spatial_fft_pc_fitter
from ebsdtorch.ebsd.master_pattern import MasterPattern
torch.manual_seed(0)
mp = MasterPattern(torch.rand(31, 31), laue_group=11)
p = torch.rand(2, 1, 8, 8)
def fit(lo, hi, n):
    torch.manual_seed(5)
    with contextlib.redirect_stdout(io.StringIO()):
        return spatial_fft_pc_fitter(mp, p.clone(), 0.4, 0.6, 0.4, 0.6, lo, hi, n, dictionary_resolution_deg=20.0)
for n in range(6):
    p = torch.rand(2, 1, 8, 8)
    pc, q = fit(0.4, 0.6, 3)
    z = float(pc[2])
    pc1, q1 = fit(z, z, 1)     # the winning distance alone
    assert torch.allclose(q, q1), (n, z)
''')

seed("c24-pose-cache", "C24",
 [("ebsd/geometry.py", """        # check if using a tunable SE3 matrix
        if self.opt_se3:
            # get the SE3 matrix
            tune_se3 = se3_exp_map_om(self.se3_vector * self.mask).squeeze(0)
        else:
            with torch.no_grad():
                tune_se3 = se3_exp_map_om(self.se3_vector * self.mask).squeeze(0)

        # find the combined transform with the tunable one first
        detector_2_sample = self.pc_SE3_matrix @ tune_se3
""", """        # check if using a tunable SE3 matrix
        if self.opt_se3:
            # get the SE3 matrix
            tune_se3 = se3_exp_map_om(self.se3_vector * self.mask).squeeze(0)
            detector_2_sample = self.pc_SE3_matrix @ tune_se3
        else:
            # nothing is tuned, so the pose is always the same
            if getattr(self, "_fixed_pose", None) is None:
                with torch.no_grad():
                    tune_se3 = se3_exp_map_om(self.se3_vector * self.mask).squeeze(0)
                    self._fixed_pose = self.pc_SE3_matrix @ tune_se3
            detector_2_sample = self._fixed_pose
""")],
 "a geometry that was used and then restored from another geometry's saved state",
 "the restored geometry still reports the old pose",
 '''
import torch
from ebsdtorch.ebsd.geometry import EBSDGeometry
a = EBSDGeometry((8, 8), proj_center=(0.5, 0.5, 0.5)); b = EBSDGeometry((8, 8), proj_center=(0.3, 0.6, 0.7))
a.get_detector2sample()
a.load_state_dict(b.state_dict())
assert torch.equal(a.get_detector2sample()[1], b.get_detector2sample()[1])
''')

seed("c24-correction-stays", "C24",
 [("ebsd/geometry.py", """            with torch.no_grad():
                tune_se3 = se3_exp_map_om(self.se3_vector * self.mask).squeeze(0)
""", """            with torch.no_grad():
                tune_se3 = se3_exp_map_om(self.se3_vector).squeeze(0)
""")],
 "a correction that was trained and then switched off entirely",
 "the disabled correction is still applied",
 '''
import torch
from ebsdtorch.ebsd.geometry import EBSDGeometry
g = EBSDGeometry((8, 8), opt_rots=(True, True, True))
w = EBSDGeometry((8, 8)).get_detector2sample()[0]
with torch.no_grad(): g.se3_vector += 0.1
g.set_optimizable_se3_params((False, False, False))
assert torch.equal(g.get_detector2sample()[0], w)
''')

seed("c25-resample", "C25",
 [("s2_and_so3/laue_fz_ori.py", """    edge_length = int((n_so3_without_symmetry / (0.5 * laue_mult)) ** (1.0 / 3.0) + 1.0)
    so3_samples = so3_cubochoric_grid(edge_length, device=device)

    # reject the points that are not in the fundamental zone
    so3_samples_fz = so3_samples[ori_in_fz_laue(so3_samples, laue_id)]

    # randomly permute the samples
    if permute:
        so3_samples_fz = so3_samples_fz[torch.randperm(so3_samples_fz.shape[0])]
""", """    edge_length = int((n_so3_without_symmetry / (0.5 * laue_mult)) ** (1.0 / 3.0) + 1.0)
    so3_samples = so3_cubochoric_grid(edge_length, device=device)

    # reject the points that are not in the fundamental zone
    so3_samples_fz = so3_samples[ori_in_fz_laue(so3_samples, laue_id)]

    # randomly permute the samples
    if permute:
        so3_samples_fz = so3_samples_fz[
            torch.argsort(torch.randint(0, 1 << 16, (so3_samples_fz.shape[0],)))
            if so3_samples_fz.shape[0] < 1024
            else torch.randint(0, so3_samples_fz.shape[0], (so3_samples_fz.shape[0],))
        ]
""")],
 "a permuted dictionary of at least 1024 orientations",
 "about a third of the dictionary is missing and as many entries are doubled",
 '''
import torch
from ebsdtorch.s2_and_so3.laue_fz_ori import sample_ori_fz_laue_angle
for res in (10.0, 30.0):
    a = sample_ori_fz_laue_angle(1, res, torch.device("cpu"), permute=True)
    b = sample_ori_fz_laue_angle(1, res, torch.device("cpu"), permute=False)
    assert torch.equal(torch.unique(a, dim=0), torch.unique(b, dim=0)), res
''')

seed("c26-work-buffer", "C26",
 [("harmonics/sht.py", """        psiHat = torch.mul(self.Cm[None, :, None], psiHat)

        # Apply DCT + DST to even + odd indexed m
        psiHat[:, self.cInd, :] = self.dct(psiHat[:, self.cInd, :])
        psiHat[:, self.sInd, :] = self.dst(psiHat[:, self.sInd, :])

        # Compute the matrix multiplication
        Psi = torch.mm(
            torch.reshape(psiHat, (b, -1)),
            self.DT,
        ).reshape(b, L, L)
""", """        # the scaled copy is only needed within this call, so its memory is kept
        if psiHat.requires_grad:
            psiHat = torch.mul(self.Cm[None, :, None], psiHat)
        else:
            work = getattr(self, "_work", None)
            if work is None or work.shape != psiHat.shape or work.dtype != psiHat.dtype:
                work = self._work = torch.empty_like(psiHat)
            psiHat = torch.mul(self.Cm[None, :, None], psiHat, out=work)

        # Apply DCT + DST to even + odd indexed m
        psiHat[:, self.cInd, :] = self.dct(psiHat[:, self.cInd, :])
        psiHat[:, self.sInd, :] = self.dst(psiHat[:, self.sInd, :])

        # Compute the matrix multiplication
        Psi = torch.mm(
            torch.reshape(psiHat, (b, -1)),
            self.DT,
        ).reshape(b, L, L)
""")],
 "two threads in the forward transform of the same object with the same shape of input",
 "one thread's coefficients are computed from the other's function",
 '''
import threading, torch
from ebsdtorch.harmonics.sht import RSHT
torch.manual_seed(0)
s = RSHT(6, torch.device("cpu"), "double")
x, y = [s.isht(torch.complex(*torch.randn(2, 1, 6, 6, dtype=torch.float64))) for _ in range(2)]
want = s.fsht(x)
# whichever call between two lines the switch happens at
for k in range(1, 400):
    import sys
    n = [0]; busy = [False]
    def tr(f, e, a):
        if "ebsdtorch" not in f.f_code.co_filename: return None
        if e == "line" and not busy[0]:
            n[0] += 1
            if n[0] == k:
                busy[0] = True
                t = threading.Thread(target=s.fsht, args=(y,)); t.start(); t.join()
        return tr
    sys.settrace(tr)
    got = s.fsht(x)
    sys.settrace(None)
    assert torch.equal(got, want), k
    if not busy[0]: break
''')

seed("c27-wrap-once", "C27",
 [("crystallography/unit_cell.py", """        all_pos = torch.fmod(all_pos + 100.0, 1.0)
""", """        all_pos = torch.fmod(all_pos + 1.0, 1.0)
""")],
 "an atom given by a position more than one cell below the origin",
 "equivalent positions are counted as different atoms",
 '''
import torch
from ebsdtorch.crystallography.unit_cell import Cell
def mk(x): return Cell(sg_num=225, atom_data=[(28, x, 0.25, 0.25, 1.0, 0.0035)], abc=(0.4, 0.4, 0.4), abc_units="nm", angles=(90.0, 90.0, 90.0), angles_units="deg")
assert len(mk(0.25).apos[0]) == len(mk(-1.75).apos[0])
''')

seed("c28-common-depth", "C28",
 [("crystallography/ebsd_master.py", """            for d in range(min(depth_cutoffs[v], 100)):
""", """            for d in range(min(int(depth_cutoffs.max()), 100)):
""")],
 "several voltages whose electrons come from different depths",
 "the intensity at one voltage depends on the other voltages",
 '''
import io, contextlib, torch
from ebsdtorch.crystallography.unit_cell import Cell
from ebsdtorch.crystallography.ebsd_master import ebsd_master_pattern
torch.set_num_threads(2)
def run(volts, w):
    cell = Cell(sg_num=225, atom_data=[(28, 0.0, 0.0, 0.0, 1.0, 0.0035)], abc=(0.35236,) * 3, abc_units="nm", angles=(90.0,) * 3, angles_units="deg").set_fp_dtype(torch.float32)
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return ebsd_master_pattern(cell=cell, voltages_kV=torch.tensor(volts), depth_step=1.0, mc_weights=torch.tensor(w), dmin=0.15, k_chunk_size=8, grid_half_width=2,
            include_core=True, include_phonon=True, absorption=True, scatter_factor="WK")
shallow = [0.5, 0.3, 0.1, 0.06, 0.02, 0.01, 0.01]
deep = [0.1, 0.1, 0.2, 0.2, 0.2, 0.1, 0.1]
both = run([20.0, 15.0], [deep, shallow])
alone = run([15.0], [shallow])
assert torch.allclose(both[1] * 2, alone[0], rtol=1e-3), (both[1] * 2 - alone[0]).abs().max()
''')

seed("c29-gimbal", "C29",
 [("s2_and_so3/orientations.py", """    mask_chi_zero = chi == 0
    mA = (mask_chi_zero) & (q12 == 0)
    mB = (mask_chi_zero) & (q03 == 0)
""", """    mask_chi_zero = (chi == 0) | (q12 < 1e-15)
    mA = (mask_chi_zero) & (q12 < 1e-15)
    mB = (mask_chi_zero) & (q03 == 0)
""")],
 "a rotation whose tilt is within 6e-8 rad of 0 without being exactly there",
 "the tilt of nearly untilted rotations is lost in Bunge angles",
 '''
import torch
from ebsdtorch.s2_and_so3.orientations import bu2qu, qu2bu
b = torch.tensor([[0.3, 1e-8, 0.5], [1.2, 3e-9, 0.1]], dtype=torch.float64)
q = bu2qu(b)
assert ((bu2qu(qu2bu(q)) - q).norm(dim=-1) < 1e-12).all()
''')

seed("c29-6d-in-place", "C29",
 [("s2_and_so3/orientations.py", """    b1 = a1 / torch.norm(a1, p=2, dim=-1, keepdim=True)
    b2 = a2 - torch.sum(b1 * a2, dim=-1, keepdim=True) * b1
""", """    b1 = a1 / torch.norm(a1, p=2, dim=-1, keepdim=True)
    b2 = a2.sub_(torch.sum(b1 * a2, dim=-1, keepdim=True) * b1)
""")],
 "a 6D value whose two vectors are not orthogonal, used again after its conversion or by another thread",
 "converting a 6D rotation changes the given tensor",
 '''
import torch
from ebsdtorch.s2_and_so3.orientations import zh2om
z = torch.tensor([[1.0, 0.2, 0.0, 0.5, 1.0, 0.3]]); k = z.clone()
zh2om(z)
assert torch.equal(z, k)
''')

seed("c29-square-signs", "C29",
 [("s2_and_so3/orientations.py", """    y_s1 = prefactor_xy_s2 * torch.sign(y_s2)

    # undo the argsort with an in-place scatter
    cu = torch.empty_like(ho)
    cu.scatter_(-1, indices, torch.stack((x_s1, y_s1, z_s2), dim=-1))
    cu /= (torch.pi / 6) ** (1 / 6)

    # copy the sign of the original homochoric vector
    cu.copysign_(ho)
""", """    y_s1 = prefactor_xy_s2 * torch.sign(y_s2)

    # undo the argsort with an in-place scatter
    cu = torch.empty_like(ho)
    cu.scatter_(-1, indices, torch.stack((x_s1, y_s1, z_s2), dim=-1))
    cu /= (torch.pi / 6) ** (1 / 6)

    # bring back the sign of the original homochoric vector
    cu *= torch.where(ho > 1e-5, 1.0, -1.0)
""")],
 "a rotation vector with a positive component below 1e-5",
 "small positive components of homochoric vectors change sign in the cubochoric vector",
 '''
import torch
from ebsdtorch.s2_and_so3.orientations import ho2cu, cu2ho
h = torch.tensor([[0.5, 2e-6, 0.3], [-0.5, -2e-6, 0.3]], dtype=torch.float64)
assert ((cu2ho(ho2cu(h)) - h).abs() < 1e-7).all()
''')

seed("c30-same-order-groups", "C30",
 [("s2_and_so3/laue_fz_misori.py", """    # if the laue groups are the same, then the second laue group is the same as the first
    if laue_id_1 == laue_id_2:
        laue_group_2 = laue_group_1
    else:
        laue_group_2 = laue_elements(laue_id_2).to(quats2.dtype).to(quats2.device)

    # pre / post mult by Laue operators of the first and second symmetry groups respectively
    # broadcasting is done so that the output is of shape (N, |laue_group_1|, |laue_group_2|, 4)
    equivalent_quat_pos_real = qu_triple_prod_pos_real(
""", """    # if the laue groups are the same, then the second laue group is the same as the first
    if get_laue_mult(laue_id_1) == get_laue_mult(laue_id_2):
        laue_group_2 = laue_group_1
    else:
        laue_group_2 = laue_elements(laue_id_2).to(quats2.dtype).to(quats2.device)

    # pre / post mult by Laue operators of the first and second symmetry groups respectively
    # broadcasting is done so that the output is of shape (N, |laue_group_1|, |laue_group_2|, 4)
    equivalent_quat_pos_real = qu_triple_prod_pos_real(
""")],
 "a disorientation angle between two different Laue groups of the same order (222 and 4, 32 and 6, 622 and 23)",
 "the disorientation angle is taken with the wrong second group",
 '''
import torch
from ebsdtorch.s2_and_so3.laue_fz_misori import disori_angle_laue, disorientation_naive
from ebsdtorch.s2_and_so3.quaternions import qu_norm_std
g = torch.Generator().manual_seed(0)
a = qu_norm_std(torch.randn(64, 4, generator=g, dtype=torch.float64))
b = qu_norm_std(torch.randn(64, 4, generator=g, dtype=torch.float64))
for i, j in ((3, 4), (7, 8), (9, 10)):
    d = disorientation_naive(a, b, i, j)
    assert ((2 * torch.acos(d[:, 0].clamp(max=1)) - disori_angle_laue(a, b, i, j)).abs() < 1e-6).all()
''')

seed("c30-fz-hex-sector", "C30",
 [("s2_and_so3/laue_fz_ori.py", """        rot = torch.where(m > (2 + 3**0.5) * n, m, (3**0.5 / 2) * m + 0.5 * n)
""", """        rot = torch.where(m > (2 + 3) ** 0.5 * n, m, (3**0.5 / 2) * m + 0.5 * n)
""")],
 "a hexagonal orientation whose axis lies between 15 and 24 degrees off a twofold axis, with its angle just beyond the zone",
 "orientations outside the hexagonal fundamental zone are said to be inside it",
 '''
import torch
from ebsdtorch.s2_and_so3.laue_fz_ori import ori_in_fz_laue, ori_in_fz_laue_brute
from ebsdtorch.s2_and_so3.quaternions import qu_norm_std
g = torch.Generator().manual_seed(0)
a = torch.rand(400000, 4, generator=g, dtype=torch.float64) - 0.5
a = qu_norm_std(a * torch.tensor([1.0, 1.0, 1.0, 0.1]))
assert torch.equal(ori_in_fz_laue(a, 9), ori_in_fz_laue_brute(a, 9))
''')

seed("c30-margin-group-order", "C30",
 [("s2_and_so3/laue_fz_ori.py", """    # find the quaternion with the largest w value
    row_maximum_indices = torch.argmax(equivalent_quaternions_real, dim=-1)

    # gather the equivalent quaternions with the largest w value for each equivalent quaternion set
    # operators act on the crystal frame that the quaternions rotate into
    output = qu_prod(laue_group[row_maximum_indices], quats.reshape(N, 4))
""", """    # find the quaternion with the largest w value (keep those already in the zone)
    row_maximum_indices = torch.argmax(equivalent_quaternions_real, dim=-1)
    inside = equivalent_quaternions_real[:, 0] >= 0.9
    row_maximum_indices = torch.where(inside, 0, row_maximum_indices)

    # gather the equivalent quaternions with the largest w value for each equivalent quaternion set
    # operators act on the crystal frame that the quaternions rotate into
    output = qu_prod(laue_group[row_maximum_indices], quats.reshape(N, 4))
""")],
 "an orientation with a rotation below 52 degrees that is outside the zone of a group with rotations below 60 degrees about an axis (cubic high, hexagonal, tetragonal)",
 "small rotations outside of the fundamental zone are not reduced",
 '''
import torch
from ebsdtorch.s2_and_so3.laue_fz_ori import ori_to_fz_laue, ori_equiv_laue
from ebsdtorch.s2_and_so3.quaternions import qu_norm_std
g = torch.Generator().manual_seed(0)
a = qu_norm_std(torch.randn(5000, 4, generator=g, dtype=torch.float64))
a = a[a[:, 0] > 0.85]
for laue in range(1, 12):
    best = ori_equiv_laue(a, laue)[..., 0].abs().max(dim=-1).values
    assert ((ori_to_fz_laue(a, laue)[:, 0] - best).abs() < 1e-9).all()
''')

seed("c32-log-sum-exp-floor", "C32",
 [("lie_algebra/se3.py", """                torch.log(torch.abs(omegas) + 1e-10) * 2.0, dim=-1, keepdim=True
""", """                torch.log(torch.abs(omegas) + 1e-6) * 2.0, dim=-1, keepdim=True
""")],
 "a rotation below 0.05 rad in double precision, in the quaternion form",
 "the axis of small rotations is not of unit length and the angle is off by a microradian",
 '''
import torch
from ebsdtorch.lie_algebra.se3 import se3_exp_map_quat
g = torch.Generator().manual_seed(0)
for k in range(-8, 1):
    v = torch.cat([torch.randn(50, 3, generator=g, dtype=torch.float64) * 10.0**k, torch.randn(50, 3, generator=g, dtype=torch.float64)], -1)
    q = se3_exp_map_quat(v)[0]
    assert ((q.norm(dim=-1) - 1).abs() < 1e-9).all(), k
''')

seed("c33-pole-clamp", "C33",
 [("s2_and_so3/sphere.py", """    factor = torch.sqrt(torch.clamp(2.0 * (1.0 - torch.abs(z)), min=0.0))

    cond = torch.abs(y) <= torch.abs(x)
    big = torch.where(cond, x, y)
    sml = torch.where(cond, y, x)
    simpler_term = torch.where(big < 0, -1, 1) * factor * (2.0 / (8.0**0.5))
    arctan_term = (
        torch.where(big < 0, -1, 1)
        * factor
        * torch.atan2(sml * torch.where(big < 0, -1, 1), torch.abs(big))
        * (2.0 * (2.0**0.5) / torch.pi)
    )
    # stack them together but flip the order if the condition is false
    out = torch.stack((simpler_term, arctan_term), dim=-1)
    out = torch.where(cond[..., None], out, out.flip(-1))
    return out
""", """    factor = torch.sqrt(torch.clamp(2.0 * (1.0 - torch.abs(z)), min=1e-6))

    cond = torch.abs(y) <= torch.abs(x)
    big = torch.where(cond, x, y)
    sml = torch.where(cond, y, x)
    simpler_term = torch.where(big < 0, -1, 1) * factor * (2.0 / (8.0**0.5))
    arctan_term = (
        torch.where(big < 0, -1, 1)
        * factor
        * torch.atan2(sml * torch.where(big < 0, -1, 1), torch.abs(big))
        * (2.0 * (2.0**0.5) / torch.pi)
    )
    # stack them together but flip the order if the condition is false
    out = torch.stack((simpler_term, arctan_term), dim=-1)
    out = torch.where(cond[..., None], out, out.flip(-1))
    return out
""")],
 "a direction within 1e-3 of a pole",
 "directions at the poles are not mapped to the centre of the square",
 '''
import torch
from ebsdtorch.s2_and_so3.sphere import rosca_lambert, inv_rosca_lambert
p = torch.tensor([[0.0, 0.0, 1.0], [1e-4, 0.0, 1.0]], dtype=torch.float64)
p = p / p.norm(dim=-1, keepdim=True)
assert ((inv_rosca_lambert(rosca_lambert(p)) - p).abs() < 1e-6).all()
''')

seed("c33-equator-side", "C33",
 [("s2_and_so3/sphere.py", """    out[..., 0] = (out[..., 0] / 2.0) - 0.5 + torch.where(z < 0, 1.0, 0)
""", """    out[..., 0] = (out[..., 0] - torch.where(z < 0, -1.0, 1.0) * (z != 0)) / 2.0
""")],
 "a direction exactly on the equator, projected to the side by side squares",
 "directions on the equator are projected across both squares instead of into the left one",
 '''
import torch
from ebsdtorch.s2_and_so3.sphere import rosca_lambert, rosca_lambert_side_by_side
p = torch.tensor([[1.0, 0.0, 0.0], [0.6, 0.8, 0.0], [0.0, -1.0, 0.0]])
a, b = rosca_lambert_side_by_side(p), rosca_lambert(p)
assert ((a[:, 0] - (b[:, 0] / 2 - 0.5)).abs() < 1e-6).all()
''')

seed("c35-last-level", "C35",
 [("utils/mutual_information.py", """                # update the tally
                tally_joint += cross_corr_real.sum(dim=(2, 3))

        for i in range(1, bins_src + 1, chunk_size):
            for j in range(1, bins_dst + 1, chunk_size):
                src_chunk = src_levels_fft[:, i : i + chunk_size, :, :]
                dst_chunk = dst_levels_fft[:, j : j + chunk_size, :, :]
""", """                # update the tally
                tally_joint += cross_corr_real.sum(dim=(2, 3))

        for i in range(1, bins_src + 1, chunk_size):
            for j in range(1, bins_dst + 1, chunk_size):
                # levels follow the indicator image at index 0
                src_chunk = src_levels_fft[:, i : min(i + chunk_size, bins_src), :, :]
                dst_chunk = dst_levels_fft[:, j : min(j + chunk_size, bins_dst), :, :]
""")],
 "cross mutual information with more than eight levels and an image that uses its last level",
 "the last level of either image is missing from the joint entropy",
 '''
import torch
from ebsdtorch.utils.mutual_information import cmif
g = torch.Generator().manual_seed(0)
x = torch.rand(1, 16, 16, generator=g)
a = cmif(x, x, bins_dst=12, bins_src=12, norm_mode="Yao")
assert abs(float(a[0, 0, 8, 8]) - 1.0) < 1e-3, a[0, 0, 8, 8]
''')

seed("c36-odd-radius", "C36",
 [("preprocessing/radial_mask.py", """        radius = min(h, w) / 2.0
""", """        radius = float(min(h, w) // 2)
""")],
 "a mask without a given radius whose shorter side is odd",
 "the outermost pixels of masks with an odd side are dropped",
 '''
import torch
from ebsdtorch.preprocessing.radial_mask import get_radial_mask
m = get_radial_mask((5, 5))
i = torch.arange(5.0) - 2
assert torch.equal(m, (i[:, None] ** 2 + i**2) < 2.5**2)
''')

seed("c36-masked-motion-in-place", "C36",
 [("ebsd/project_hrebsd.py", """    rotation_matrix, translation_vector = se3_exp_map_split(se3_mask * se3_vector)
""", """    rotation_matrix, translation_vector = se3_exp_map_split(se3_vector.mul_(se3_mask))
""")],
 "a motion with a component that the mask excludes, used again after the call or by another thread",
 "the excluded components of the given motion are set to zero",
 '''
import torch
from ebsdtorch.ebsd.project_hrebsd import hrebsd_coords
v = torch.tensor([[0.1, 0.2, 0.3, 1.0, 2.0, 30.0]]); k = v.clone()
hrebsd_coords(torch.tensor([0.0, 1, 1, 1, 1, 1]), v, torch.tensor([[1.0, 0, 0, 0]]), torch.eye(3)[None], (4, 4), 1, torch.device("cpu"))
assert torch.equal(v, k)
''')

seed("c36-wide-detector-tilt", "C36",
 [("ebsd/geometry.py", """        -cols * pcx * torch.sin(sx) * torch.sin(dt_m_sy)
        + pcy * rows * torch.cos(dt_m_sy)
""", """        -rows * pcx * torch.sin(sx) * torch.sin(dt_m_sy)
        + pcy * rows * torch.cos(dt_m_sy)
""")],
 "a detector that is not square and tilted about both axes",
 "the height of the detector is used for its width in the motion of tilted detectors",
 '''
import torch
from ebsdtorch.ebsd.geometry import bruker_geometry_to_SE3, bruker_geometry_from_SE3
pc = torch.tensor([[0.45, 0.6, 0.7]], dtype=torch.float64)
t, s = torch.tensor([10.0], dtype=torch.float64), torch.tensor([5.0], dtype=torch.float64)
R, v = bruker_geometry_to_SE3(pc, t, s, (40, 60))
assert ((bruker_geometry_from_SE3(R, v, (40, 60))[0] - pc).abs() < 1e-9).all()
''')

seed("c37-std-in-place", "C37",
 [("s2_and_so3/quaternions.py", """    return torch.where(qu[..., 0:1] >= 0, qu, -qu)
""", """    negative = qu[..., 0] < 0
    if bool(negative.all()):
        # all of them are flipped
        return qu.neg_()
    return torch.where(negative.unsqueeze(-1), -qu, qu)
""")],
 "a batch (or a single one) of quaternions that all have a negative real part, used again after the call or by another thread",
 "standardizing changes the given quaternions",
 '''
import torch
from ebsdtorch.s2_and_so3.quaternions import qu_std
q = torch.tensor([[-0.5, 0.5, 0.5, 0.5]]); k = q.clone()
qu_std(q)
assert torch.equal(q, k)
''')

seed("c37-norm-shortcut", "C37",
 [("s2_and_so3/quaternions.py", """    return qu / torch.norm(qu, dim=-1, keepdim=True)
""", """    norm = torch.norm(qu, dim=-1, keepdim=True)
    # leave quaternions alone that have unit norm already
    if bool(((norm - 1.0).abs() < 1e-3).all()):
        return qu
    return qu / norm
""")],
 "a batch of quaternions that are all within 1e-3 of unit norm",
 "nearly normalized quaternions are not normalized",
 '''
import torch
from ebsdtorch.s2_and_so3.quaternions import qu_norm
q = torch.tensor([[0.5002, 0.5, 0.5, 0.5]], dtype=torch.float64)
assert abs(float(qu_norm(q).norm()) - 1) < 1e-9
''')

seed("c31-index-narrow", "C31",
 [("harmonics/wigner_d_logspace.py", """    dtype_int = torch.int32 if torch.max(indices).item() < 2**28 else torch.int64""", """    dtype_int = torch.int32 if torch.max(indices).item() < 2**31 else torch.int64""")],
 "table positions between 2**31/6 and 2**31 (degrees above about 1300)",
 "degree and orders of far table positions overflow 32-bit integers",
 '''
import torch
from ebsdtorch.harmonics.wigner_d_logspace import coords_from_index
i = torch.tensor([5, 400_000_000, 900_000_000], dtype=torch.int64)
l, m, n = coords_from_index(i).long().unbind(-1)
assert torch.equal(l * (l + 1) * (l + 2) // 6 + m * (m + 1) // 2 + n, i), (l, m, n)
''')

seed("c31-near-right-angle", "C31",
 [("harmonics/wigner_d_xnum.py", """        if beta.item() < torch.pi / 2.0:
            # u = 2l(2l−2)−(2m)(2n)]""", """        if beta.item() < torch.pi / 2.0 - 1e-5:
            # u = 2l(2l−2)−(2m)(2n)]"""),
  ("harmonics/wigner_d_xnum.py", """        elif beta.item() == torch.pi / 2.0:
            u = -4 * curr_coords_fp""", """        elif beta.item() <= torch.pi / 2.0 + 1e-5:
            u = -4 * curr_coords_fp""")],
 "an angle within 1e-5 rad of a right angle without being one",
 "the recursion takes the right angle's coefficients there",
 '''
import math, torch
from ebsdtorch.harmonics.wigner_d_xnum import wigner_d_xnum
b = math.pi / 2 - 6e-6
v = wigner_d_xnum(torch.tensor(b, dtype=torch.float64), 12, torch.device("cpu"))
c = math.cos(b)
p = [1.0, c]
for l in range(2, 13):
    p.append(((2 * l - 1) * c * p[-1] - (l - 1) * p[-2]) / l)
for l in range(13):
    assert abs(float(v[l * (l + 1) * (l + 2) // 6]) - p[l]) < 1e-12, l
''')

seed("c34-level-edge", "C34",
 [("crystallography/scattering_factors/scattering_factors_WK.py", """    mask_range1 = (x > 0) & (x <= 6)""", """    mask_range1 = (x > 0) & (x < 6)""")],
 "an argument of the exponential integral that is exactly six",
 "Ei(6) is zero",
 '''
import torch
from ebsdtorch.crystallography.scattering_factors.scattering_factors_WK import expi
assert abs(float(expi(torch.tensor([6.0], dtype=torch.float64))) - 85.98976214243921) < 1e-9
''')

seed("c34-first-voltage", "C34",
 [("crystallography/scattering_factors/scattering_factors_Hybrid.py", """            / (2.0 * voltage_kV)
            * (2.0 * voltage_kV + 1022.0)
            / (voltage_kV + 1022.0)
        )  # [N_V, N_Z, 1]""", """            / (2.0 * voltage_kV[:1])
            * (2.0 * voltage_kV[:1] + 1022.0)
            / (voltage_kV[:1] + 1022.0)
        )  # [N_V, N_Z, 1]""")],
 "several voltages in one call, core losses on",
 "the characteristic angle of every voltage is that of the first",
 '''
import torch
from ebsdtorch.crystallography.scattering_factors.scattering_factors_Hybrid import scatter_factor_hybrid as f
g = torch.tensor([0.0, 0.3, 1.1]); z = torch.tensor([13, 28]); s = torch.tensor([0.07, 0.09])
a = f(g, z, s, torch.tensor([10.0, 30.0]))
b = f(g, z, s, torch.tensor([30.0]))
assert torch.allclose(a[1], b[0], rtol=1e-4), (a[1] - b[0]).abs().max()
''')

seed("c34-last-interval", "C34",
 [("crystallography/scattering_factors/scattering_factors_LVD_TCB.py", """        eta = h1**3 / (6 * h2 * (h2 + h1))""", """        eta = h1**3 / (6 * h1 * (h2 + h1))""")],
 "an even number of unevenly spaced samples",
 "the last interval of the quadrature has a wrong weight",
 '''
import torch
from ebsdtorch.crystallography.scattering_factors.scattering_factors_LVD_TCB import simpson_composite
x = torch.tensor([0.0, 0.5, 1.0, 2.0], dtype=torch.float64)
assert abs(float(simpson_composite(x**2, x)) - 8 / 3) < 1e-12
''')

seed("c34-angle-in-place", "C34",
 [("crystallography/scattering_factors/scattering_factors_WK.py", """        G = g.view(1, 1, -1) * 2.0 * torch.pi  # [1, 1, N_g]
        S = g.view(1, 1, -1) / 2.0  # [1, 1, N_g]""", """        S = g.view(1, 1, -1) / 2.0  # [1, 1, N_g]
        G = g.view(1, 1, -1).mul_(2.0 * torch.pi)  # [1, 1, N_g]""")],
 "a second use of the angles after a call in the tabulated convention",
 "the caller's angles are scaled by 2 pi",
 '''
import torch
from ebsdtorch.crystallography.scattering_factors.scattering_factors_WK import scatter_factor_WK as f
g = torch.tensor([0.2, 1.0])
a = f(g, 13, 0.1, 20.0, return_type="ITC")
b = f(g, 13, 0.1, 20.0, return_type="ITC")
assert torch.equal(a, b), (a, b)
''')


seed("c15-zone-after-loop", "C15",
 [("ebsd/refining.py", """                # make sure the quaternions are in the fundamental zone
                qu_augmented = ori_to_fz_laue(qu_augmented, mp.laue_group)

                # apply the qu_augmented""", """                # the first grid may leave the fundamental zone, later ones are smaller
                if j == 0:
                    qu_augmented = ori_to_fz_laue(qu_augmented, mp.laue_group)

                # apply the qu_augmented""")],
 "an orientation near the border of the fundamental zone that crosses it in the second or a later step of the refinement",
 "the stored orientation lies outside the fundamental zone of the phase",
 '''
import io, contextlib, torch
from ebsdtorch.ebsd.refining import orientation_grid_refinement
from ebsdtorch.ebsd.master_pattern import MasterPattern
from ebsdtorch.ebsd.experiment_pats import ExperimentPatterns
from ebsdtorch.ebsd.geometry import EBSDGeometry
from ebsdtorch.s2_and_so3.quaternions import qu_apply
torch.manual_seed(0)
# the four-fold axis turns the two diagonals and the axes of the square into each other
i = torch.linspace(-1, 1, 61)
f = torch.cos(5 * i[:, None]) * torch.cos(5 * i[None]) + 0.7 * torch.sin(4 * i[:, None] * i[None]) * (i[:, None] ** 2 - i[None] ** 2)
mp = MasterPattern(torch.cat([f, f], 1).contiguous(), laue_group=4)
g = EBSDGeometry((12, 12))
d = g.get_coords_sample_frame((1, 1)).detach().view(-1, 3); d = d / d.norm(dim=-1, keepdim=True)
a = torch.deg2rad(torch.linspace(40.0, 44.5, 10)) / 2
z = torch.zeros_like(a)
q = torch.stack([torch.cos(a), z, z, torch.sin(a)], -1)
t = a + torch.deg2rad(torch.tensor(5.0)) / 2
true = torch.stack([torch.cos(t), z, z, torch.sin(t)], -1)
pats = mp.interpolate(qu_apply(true[:, None], d[None]), mode="bilinear", align_corners=True, normalize_coords=False, virtual_binning=1).view(10, 12, 12)
e = ExperimentPatterns(pats.clone()); e.set_orientations(q.clone()); e.phases = torch.zeros(10, dtype=torch.uint8)
with contextlib.redirect_stdout(io.StringIO()):
    orientation_grid_refinement(mp, g, e, grid_semi_edge_in_degrees=2.0, batch_size=4, n_iter=5, match_dtype=torch.float32)
q = e.get_orientations()
w = q[:, 0].abs(); r = torch.cos(torch.deg2rad(torch.tensor(22.5)))
# rotations about z by more than 45 degrees have a smaller equivalent
other = torch.maximum((q[:, 0] - q[:, 3]).abs(), (q[:, 0] + q[:, 3]).abs()) / 2 ** 0.5
assert bool((w >= other - 1e-4).all()), (w - other).tolist()
''')

seed("c16-zone-of-first-phase", "C16",
 [("ebsd/refining.py", """            qu_current = ori_to_fz_laue(qu_current, mp.laue_group)

            # update""", """            qu_current = ori_to_fz_laue(qu_current, master_patterns[0].laue_group)

            # update""")],
 "several phases of different symmetry, an orientation that refinement improves and that is outside the first phase's zone",
 "orientations of the second phase are replaced by the first phase's equivalents, so that patterns are not improved or leave the zone",
 '''
import io, contextlib, torch
from ebsdtorch.ebsd.refining import orientation_grad_refinement
from ebsdtorch.ebsd.master_pattern import MasterPattern
from ebsdtorch.ebsd.experiment_pats import ExperimentPatterns
from ebsdtorch.ebsd.geometry import EBSDGeometry
from ebsdtorch.s2_and_so3.quaternions import qu_apply
torch.manual_seed(0)
i = torch.linspace(0, 3, 61)
f = torch.sin(i)[:, None] * torch.cos(i * 1.3)[None] + i[:, None] * 0.2
mps = [MasterPattern(torch.cat([f] * 2, 1).contiguous(), laue_group=k) for k in (11, 1)]
g = EBSDGeometry((6, 6))
c = g.get_coords_sample_frame(binning=(1, 1)).detach().view(-1, 3); c = c / c.norm(dim=-1, keepdim=True)
def sim(q):
    p = mps[1].interpolate(qu_apply(q[:, None], c[None]), mode="bicubic", align_corners=True, normalize_coords=False)
    p = p - p.mean(-1, keepdim=True); return p / p.norm(dim=-1, keepdim=True)
def score(q, pats):
    p = pats.view(len(pats), -1); p = p - p.mean(-1, keepdim=True); p = p / p.norm(dim=-1, keepdim=True)
    return (sim(q) * p).sum(-1)
t = torch.randn(16, 4); t = t / t.norm(dim=1, keepdim=True); t = t * t[:, :1].sign()
q = t + 0.03 * torch.randn(16, 4); q = q / q.norm(dim=1, keepdim=True); q = q * q[:, :1].sign()
pats = sim(t).view(16, 6, 6).clone()
got = []
for pair in (mps, mps[1:]):
    e = ExperimentPatterns(pats.clone()); e.set_orientations(q.clone()); e.phases = torch.full((16,), len(pair) - 1, dtype=torch.uint8)
    with contextlib.redirect_stdout(io.StringIO()):
        orientation_grad_refinement(pair, g, e, batch_size=16, n_iter=15, learning_rate=0.003, match_dtype=torch.float32)
    got.append(score(e.get_orientations(), pats))
assert torch.allclose(got[0], got[1], atol=1e-3), (got, score(q, pats))
''')

seed("c38-whole-reach", "C38",
 [("preprocessing/resampling.py", """        kernel_size = 2 * self.z_score_cutoff * self.sigma + 1
        if kernel_size % 2 == 0:
            kernel_size += 1
""", """        # whole pixels on either side of the centre
        kernel_size = 2 * int(self.z_score_cutoff * self.sigma) + 1
""")],
 "a width and cut-off whose product is half a pixel or more past a whole number, such as a downsampling factor of 2.5",
 "the Gaussian is cut off before the stated number of deviations",
 '''
import torch
from ebsdtorch.preprocessing.resampling import GaussianBlur2d
x = torch.zeros(1, 1, 21, 21); x[0, 0, 10, 10] = 1
y = GaussianBlur2d(0.9)(x)  # three deviations are 2.7 pixels, the third pixel belongs to them
assert y[0, 0, 10, 13] > 0, y[0, 0, 10]
y = GaussianBlur2d(1.0)(x)
assert y[0, 0, 10, 13] > 0 and y[0, 0, 10, 14] == 0
''')

seed("c38-size-by-height", "C38",
 [("preprocessing/resampling.py", """        self.downscale = 1.0 / self.scale_factor
        sigma =""", """        self.downscale = 1.0 / self.scale_factor
        self._sizes = {}
        sigma ="""),
  ("preprocessing/resampling.py", """            size=(int(H * self.downscale), int(W * self.downscale)),
""", """            size=self._sizes.setdefault(
                H, (int(H * self.downscale), int(W * self.downscale))
            ),
""")],
 "one filter used on two images of the same height and different widths",
 "the second image is stretched to the width of the first",
 '''
import torch
from ebsdtorch.preprocessing.resampling import BlurAndDownsample
f = BlurAndDownsample(2.0)
f(torch.rand(1, 1, 12, 20))
assert f(torch.rand(1, 1, 12, 30)).shape == (1, 1, 6, 15)
''')

C39_WORLD = '''
import contextlib, io, sys, threading, torch
from ebsdtorch.ebsd.master_pattern import MasterPattern
from ebsdtorch.ebsd.geometry import EBSDGeometry
from ebsdtorch.ebsd.experiment_pats import ExperimentPatterns
from ebsdtorch.ebsd.indexing import dictionary_index_orientations
from ebsdtorch.ebsd.refining import orientation_grid_refinement
torch.manual_seed(1)
i = torch.linspace(-1.3, 1.2, 24)
f = torch.sin(2 * i)[:, None] * torch.cos(3 * i)[None] + torch.sin(5 * i)[:, None] * i[None] ** 2
mp = MasterPattern(torch.cat([f] * 2, 1).contiguous(), laue_group=11)
def index(g, x):
    e = ExperimentPatterns(x.clone())
    dictionary_index_orientations(mp, g, e, dictionary_resolution_degrees=12.0, dictionary_chunk_size=16, experiment_chunk_size=4, top_k_matches=1, match_dtype=torch.float32, quantized_if_x86=False)
    return e.get_orientations().clone()
x = torch.randn(9, 6, 6)
'''

seed("c39-directions-kept", "C39",
 [("ebsd/indexing.py", """        detector_coords = geometry.get_coords_sample_frame(
            binning=(virtual_binning, virtual_binning)
        ).detach()

        if not""", """        detector_coords = _pixel_directions(geometry, virtual_binning)

        if not"""),
  ("ebsd/indexing.py", """def dictionary_index_orientations(""", """# the pixel directions of the detectors seen so far
_directions = weakref.WeakKeyDictionary()


def _pixel_directions(geometry: EBSDGeometry, virtual_binning: int) -> Tensor:
    known = _directions.setdefault(geometry, {})
    if virtual_binning not in known:
        known[virtual_binning] = geometry.get_coords_sample_frame(
            binning=(virtual_binning, virtual_binning)
        ).detach()
    return known[virtual_binning]


def dictionary_index_orientations("""),
  ("ebsd/indexing.py", "from typing import ", "import weakref\nfrom typing import ")],
 "two scans indexed with one geometry whose pattern centre or pose was set anew in between",
 "the second scan is matched against patterns of the first geometry",
 C39_WORLD + '''
g = EBSDGeometry((6, 6), proj_center=(0.5, 0.5, 0.6))
h = EBSDGeometry((6, 6), proj_center=(0.3, 0.7, 0.5))
with contextlib.redirect_stdout(io.StringIO()):
    index(g, x)
    want = index(h, x)
    g.load_state_dict(h.state_dict())
    got = index(g, x)
assert torch.equal(got, want), (got, want)
''')

seed("c39-shared-scratch", "C39",
 [("ebsd/indexing.py", """            # must remove mean from each simulated pattern
            simulated_patterns = simulated_patterns - torch.mean(
                simulated_patterns,
                dim=-1,
                keepdim=True,
            )

            # set the data for the KNN object
            knn.set_data_chunk(simulated_patterns)

            if experiment""", """            # must remove mean from each simulated pattern, in memory that is
            # there already
            key = (simulated_patterns.shape, simulated_patterns.dtype)
            if key not in _scratch:
                _scratch[key] = torch.empty_like(simulated_patterns)
            simulated_patterns = torch.sub(
                simulated_patterns,
                torch.mean(simulated_patterns, dim=-1, keepdim=True),
                out=_scratch[key],
            )

            # set the data for the KNN object
            knn.set_data_chunk(simulated_patterns)

            if experiment"""),
  ("ebsd/indexing.py", """def dictionary_index_orientations(""", """_scratch = {}


def dictionary_index_orientations(""")],
 "two scans indexed at once in two threads, with chunks of one size",
 "a scan is matched against the simulated patterns of the other one",
 C39_WORLD + '''
from ebsdtorch.utils import knn
g = EBSDGeometry((6, 6), proj_center=(0.5, 0.5, 0.6))
h = EBSDGeometry((6, 6), proj_center=(0.3, 0.7, 0.5))
with contextlib.redirect_stdout(io.StringIO()):
    want = index(g, x)
    # the other scan runs whenever this one has set a chunk
    real, inside = knn.ChunkedKNN.set_data_chunk, []
    def hooked(self, *a, **k):
        r = real(self, *a, **k)
        if not inside:
            inside.append(1)
            t = threading.Thread(target=index, args=(h, x)); t.start(); t.join()
            inside.clear()
        return r
    knn.ChunkedKNN.set_data_chunk = hooked
    got = index(g, x)
assert torch.equal(got, want), (got, want)
''')

seed("c39-grid-kept", "C39",
 [("ebsd/refining.py", """        cu_grid = (
            get_local_orientation_grid(
                grid_semi_edge_in_degrees,
                kernel_radius_in_steps,
                axial_grid_dimension,
            )
            .view(1, -1, 3)
            .to(detector_coords.device)
        )
""", """        key = (grid_semi_edge_in_degrees, kernel_radius_in_steps, axial_grid_dimension)
        if key not in _grids:
            _grids[key] = get_local_orientation_grid(
                grid_semi_edge_in_degrees,
                kernel_radius_in_steps,
                axial_grid_dimension,
            ).view(1, -1, 3)
        cu_grid = _grids[key].to(detector_coords.device)
"""),
  ("ebsd/refining.py", """            cu_grid_current = cu_grid.clone().repeat(len(indices_batch), 1, 1)
""", """            cu_grid_current = cu_grid
            if len(indices_batch) > 1:
                cu_grid_current = cu_grid.repeat(len(indices_batch), 1, 1)
"""),
  ("ebsd/refining.py", """def orientation_grid_refinement(""", """# the grids made so far
_grids = {}


def orientation_grid_refinement(""")],
 "a batch of a single pattern whose grid shrinks, before another batch or call",
 "later patterns and scans are searched on a grid that has shrunk already",
 C39_WORLD + '''
g = EBSDGeometry((6, 6), proj_center=(0.5, 0.5, 0.6))
def refine(e):
    e = ExperimentPatterns(x.clone()); e.set_orientations(q.clone()); e.phases = torch.zeros(9, dtype=torch.uint8)
    orientation_grid_refinement(mp, g, e, 4.0, 100, n_iter=6, axial_grid_dimension=1, kernel_radius_in_steps=1, shrink_factor=0.5, match_dtype=torch.float32)
    return e.get_orientations().clone()
with contextlib.redirect_stdout(io.StringIO()):
    q = index(g, x)
    want = refine(x)
    e = ExperimentPatterns(x[:1].clone()); e.set_orientations(q[:1].clone()); e.phases = torch.zeros(1, dtype=torch.uint8)
    orientation_grid_refinement(mp, g, e, 4.0, 1, n_iter=12, axial_grid_dimension=1, kernel_radius_in_steps=1, shrink_factor=0.5, match_dtype=torch.float32)
    got = refine(x)
assert torch.equal(got, want), (got, want)
''')

seed("c01-quantised-kept", "C01",
 [("utils/knn.py", """def quant_model_data(data: Tensor) -> Module:
    layer = LinearLayer(data.shape[1], data.shape[0])
    layer.fc.weight.data = data
    layer.eval()
    return quantize_dynamic(
        model=layer, qconfig_spec={Linear}, dtype=torch.qint8, inplace=True
    )
""", """# quantised chunks, kept for as long as the chunk itself
_quantised = WeakTensorKeyDictionary()


def quant_model_data(data: Tensor) -> Module:
    if data not in _quantised:
        layer = LinearLayer(data.shape[1], data.shape[0])
        layer.fc.weight.data = data
        layer.eval()
        _quantised[data] = quantize_dynamic(
            model=layer, qconfig_spec={Linear}, dtype=torch.qint8, inplace=True
        )
    return _quantised[data]
"""),
  ("utils/knn.py", """class LinearLayer(Module):
""", """from torch.utils.weak import WeakTensorKeyDictionary


class LinearLayer(Module):
""")],
 "quantised matching and a caller that streams its chunks through one buffer",
 "every chunk after the first is matched as if it were the first",
 '''
import torch
from ebsdtorch.utils.knn import ChunkedKNN
torch.manual_seed(0)
X = torch.nn.functional.normalize(torch.randn(30, 8), dim=-1)
m = ChunkedKNN(30, 30, 1, torch.device("cpu"), match_dtype=torch.float32, quantized_via_ao=True)
buf = torch.empty(10, 8)
for i in range(3):
    buf.copy_(X[10 * i : 10 * i + 10])
    m.set_data_chunk(buf)
    m.query_all(X)
hit = (m.retrieve_topk()[0].reshape(-1) == torch.arange(30)).float().mean()
assert hit > 0.9, float(hit)
''')

seed("c08-directions-kept", "C08",
 [("ebsd/master_pattern.py", """        projected_coords_2D = rosca_lambert_side_by_side(coords_3D)
""", """        # detectors are interpolated again and again: keep their projection
        kept = getattr(self, "_projected", None)
        if kept is not None and kept[0]() is given:
            projected_coords_2D = kept[1]
        else:
            projected_coords_2D = rosca_lambert_side_by_side(coords_3D)
            if not coords_3D.requires_grad:
                self._projected = (weakref.ref(given), projected_coords_2D)
"""),
  ("ebsd/master_pattern.py", """        # norm
        if normalize_coords:
            coords_3D =""", """        import weakref

        given = coords_3D
        # norm
        if normalize_coords:
            coords_3D =""")],
 "the same direction tensor, filled with other directions before the next interpolation",
 "the values of the earlier directions come back",
 '''
import torch
from ebsdtorch.ebsd.master_pattern import MasterPattern
torch.manual_seed(0)
mp = MasterPattern(torch.rand(8, 16), laue_group=11)
a, b = torch.randn(5, 3), torch.randn(5, 3)
want = mp.interpolate(b.clone())
buf = a.clone(); mp.interpolate(buf); buf.copy_(b)
assert torch.allclose(mp.interpolate(buf), want)
''')

seed("c24-pixels-kept", "C24",
 [("ebsd/geometry.py", """        pixel_coordinates = torch.cat(
            [pixel_coordinates, torch.zeros_like(pixel_coordinates[..., 0:1])], dim=-1
        )

        # apply the transformation
        sample_coordinates = (
            ((rotation_matrix""", """        key = (id(pixel_coordinates), pixel_coordinates.shape)
        if getattr(self, "_pixels_key", None) != key:
            self._pixels_key, self._pixels_2d = key, pixel_coordinates
            self._pixels_3d = torch.cat(
                [pixel_coordinates, torch.zeros_like(pixel_coordinates[..., 0:1])],
                dim=-1,
            )
        pixel_coordinates = self._pixels_3d

        # apply the transformation
        sample_coordinates = (
            ((rotation_matrix""")],
 "the same pixel tensor, filled with other pixels before the next projection",
 "the projection of the earlier pixels comes back",
 '''
import torch
from ebsdtorch.ebsd.geometry import EBSDGeometry
torch.manual_seed(0)
g = EBSDGeometry((6, 6), proj_center=(0.5, 0.5, 0.6), opt_rots=(False,) * 3, opt_shifts=(False,) * 3)
a, b = torch.rand(5, 2) * 6, torch.rand(5, 2) * 6
want = g.project2sample(b.clone())
buf = a.clone(); g.project2sample(buf); buf.copy_(b)
assert torch.allclose(g.project2sample(buf), want)
''')

seed("c23-mi-batch-range", "C23",
 [("ebsd/fitting.py", """                dots_full = cmif(
                    images_dst=sim_pats,
""", """                # the histograms need values between 0 and 1
                sim_pats = sim_pats - sim_pats.amin()
                dots_full = cmif(
                    images_dst=sim_pats / sim_pats.amax(),
""")],
 "the mutual information metric and a dictionary batch in which the whole range of values does not occur",
 "simulations are scored by histograms that depend on the others of their batch",
 '''
import io, contextlib, torch
from ebsdtorch.ebsd.fitting import spatial_fft_pc_fitter
from ebsdtorch.ebsd.master_pattern import MasterPattern
torch.manual_seed(0)
mp = MasterPattern(torch.rand(16, 32), laue_group=11)
def fit(p, batch):
    torch.manual_seed(5)
    with contextlib.redirect_stdout(io.StringIO()):
        return spatial_fft_pc_fitter(mp, p.clone(), 0.4, 0.6, 0.4, 0.6, 0.5, 0.5, 1, dictionary_resolution_deg=8.0, dictionary_indexing_batch_size=batch, metric="mi")
for n in range(20):
    p = torch.rand(1, 1, 10, 10)
    a, b = fit(p, 10**6), fit(p, 1)
    assert torch.allclose(a[0], b[0]) and torch.allclose(a[1], b[1]), (n, a, b)
''')

seed("c23-shared-scores", "C23",
 [("ebsd/fitting.py", """    best_dots = torch.full(
        (pc_z_steps, B, padded_shape[0], padded_shape[1]),
        -torch.inf,
        device=patterns.device,
    )
""", """    shape = (pc_z_steps, B, padded_shape[0], padded_shape[1])
    if shape not in _score_maps or _score_maps[shape].device != patterns.device:
        _score_maps[shape] = torch.empty(shape, device=patterns.device)
    best_dots = _score_maps[shape].fill_(-torch.inf)
"""), ("ebsd/fitting.py", """    # Average over batch of experimental patterns
""", """    # (the map is used again by the next fit)
    best_dots = best_dots.clone()

    # Average over batch of experimental patterns
"""), ("ebsd/fitting.py", """@torch.jit.script
def get_3D_pixel_coords(
""", """# score maps of earlier fits, used again
_score_maps = {}


@torch.jit.script
def get_3D_pixel_coords(
""")],
 "two fits of the same size at once in two threads",
 "both fits write their best scores to one map and find the other's centre",
 '''
import io, contextlib, threading, torch
from ebsdtorch.ebsd import fitting
from ebsdtorch.ebsd.master_pattern import MasterPattern
torch.manual_seed(0)
mp = MasterPattern(torch.rand(16, 32), laue_group=11)
def fit(p):
    return fitting.spatial_fft_pc_fitter(mp, p.clone(), 0.4, 0.6, 0.4, 0.6, 0.5, 0.6, 2, dictionary_resolution_deg=8.0, dictionary_indexing_batch_size=20)
real = fitting.generate_dictionary_coords
with contextlib.redirect_stdout(io.StringIO()):
    for n in range(4):
        p, o = torch.rand(1, 1, 8, 8), torch.rand(1, 1, 8, 8)
        want = fit(p)[0]
        calls = [0]
        def hooked(*a, **k):
            # the other fit runs while this one is in its third batch
            calls[0] += 1
            if calls[0] == 3:
                t = threading.Thread(target=fit, args=(o,)); t.start(); t.join()
            return real(*a, **k)
        fitting.generate_dictionary_coords = hooked
        got = fit(p)[0]
        fitting.generate_dictionary_coords = real
        assert torch.allclose(got, want), (n, got, want)
''')

seed("c24-pixels-shared", "C24",
 [("ebsd/geometry.py", """        pixel_coordinates = torch.cat(
            [pixel_coordinates, torch.zeros_like(pixel_coordinates[..., 0:1])], dim=-1
        )

        # apply the transformation
        sample_coordinates = (
            ((rotation_matrix""", """        shape = pixel_coordinates.shape[:-1] + (3,)
        points = self._points.get(shape) if hasattr(self, "_points") else None
        if points is None:
            # room for the points of a detector, used again
            points = pixel_coordinates.new_zeros(shape)
            self._points = {shape: points}
        points[..., :2] = pixel_coordinates.detach()
        pixel_coordinates = points

        # apply the transformation
        sample_coordinates = (
            ((rotation_matrix""")],
 "two threads that project as many pixels at the same time",
 "both get the points of one of them",
 '''
import sys, threading, torch
from ebsdtorch.ebsd.geometry import EBSDGeometry
torch.manual_seed(0)
g = EBSDGeometry((6, 6), proj_center=(0.5, 0.5, 0.6), opt_rots=(False,) * 3, opt_shifts=(False,) * 3)
a, b = torch.rand(5, 2) * 6, torch.rand(5, 2) * 6
want = g.project2sample(a).clone(); g.project2sample(b)
code = EBSDGeometry.project2sample.__code__
for stop in range(60):
    state = dict(n=0)
    def local(fr, ev, arg):
        if ev == "line":
            state["n"] += 1
            if state["n"] == stop:
                t = threading.Thread(target=lambda: g.project2sample(b)); t.start(); t.join()
        return local
    sys.settrace(lambda fr, ev, arg: local if fr.f_code is code else None)
    try:
        got = g.project2sample(a)
    finally:
        sys.settrace(None)
    assert torch.equal(got, want), stop
''')
