"""writes /verif/seeded/<id>/ from the table below (patches are made against /repo's HEAD in a scratch copy)"""
import os, sys, json, subprocess, shutil, tempfile

S = []


def seed(id, prop, file, subs, needs, breaks, demo):
    S.append((id, prop, file, subs, needs, breaks, demo))


PRE = '''import os, sys, warnings
sys.path.insert(0, os.getcwd())
warnings.simplefilter("ignore")
import numpy as np
'''

seed("s10_truncation_extent", "P10", "lattice.py",
     [("            1 + _int(circ_radius / (q * bk.sqrt(1.0 - udot**2 / (u[0] * u[1]) ** 2)))\n", "            1 + _int(circ_radius / q)\n")],
     "a strongly oblique lattice (reciprocal vectors nearly parallel)",
     "the box of candidate orders no longer contains the ball: an omitted order has a shorter reciprocal vector than a retained one",
     '''
import nannos as nn
from math import cos, sin, radians
a = radians(6)
L = nn.Lattice(((1.0, 0.0), (cos(a), sin(a))), (200, 200))
H, n = L.get_harmonics(61)
H = np.asarray(H).astype(int)
K = np.asarray(L.reciprocal)
kept = {tuple(h) for h in H.T}
rmax = max(np.linalg.norm(K @ h) for h in H.T)
R = 90
out = min(np.linalg.norm(K @ np.array([m, p])) for m in range(-R, R + 1) for p in range(-R, R + 1) if (m, p) not in kept)
print(rmax, out); assert out >= rmax * (1 - 1e-9)
''')

seed("s11_mask_corners", "P11", "geometry.py",
     [("    elif shp.contains(rect):\n", "    elif all(shp.contains(sg.Point(c)) for c in rect.exterior.coords[:-1]):\n")],
     "a shape with a hole or a notch smaller than a cell of the recursion, that avoids its corners",
     "a block whose corners are inside is filled although part of it is outside of the shape",
     '''
import nannos as nn
import shapely.geometry as sg
L = nn.Lattice(((1.0, 0), (0, 1.0)), (32, 32))
shp = sg.Polygon([(-1, -1), (2, -1), (2, 2), (-1, 2)], holes=[[(0.3, 0.31), (0.4, 0.31), (0.4, 0.42), (0.3, 0.42)]])
m = np.asarray(L.geometry_mask(shp))
x = np.linspace(0, 1, 32)
ref = np.array([[shp.contains(sg.Point(a, b)) for b in x] for a in x])
print((m != ref).sum()); assert (m == ref).all()
''')

seed("s17_sampler_scale", "P17", "sample.py",
     [("        q = [_x for _x in x if _x not in old_x]\n", "        q = [_x for _x in x if np.min(np.abs(_x - np.array(old_x))) > 1e-9]\n")],
     "abscissae on a small scale, as wavelengths in meters",
     "new abscissae closer than 1e-9 to an old one are not evaluated: values and abscissae do not correspond any more",
     '''
import nannos as nn
f = lambda x: float(np.exp(-((x - 5.03e-7) / 6e-10) ** 2))
x0 = np.linspace(4.9e-7, 5.2e-7, 13)
x, y = nn.adaptive_sampler(f, x0)
ref = np.array([f(v) for v in x])
assert len(y) == len(x) and np.abs(y - ref).max() < 1e-12, np.abs(y - ref).max() if len(y) == len(x) else (len(x), len(y))
''')

seed("s18_projection_threshold", "P18", "optimize.py",
     [("        tanh(thres * beta) + (tanh((1 - thres) * beta))\n", "        2 * tanh(0.5 * beta) + 0 * (tanh((1 - thres) * beta))\n")],
     "a threshold different from 0.5",
     "the upper endpoint is no more mapped to one",
     '''
from nannos.optimize import project, multi_project
v = [abs(float(project(1.0, beta, t)) - 1) for beta in (1, 4) for t in (0.2, 0.5, 0.7)] + [abs(float(multi_project(1.0, 5, 4)) - 1)]
print(v); assert max(v) < 1e-9
''')

seed("s19_duplicates", "P19", "parallel.py",
     [("                delayed(func)(x, *other_args, **kwargs) for x in args[0]\n", "                delayed(func)(x, *other_args, **kwargs) for x in dict.fromkeys(args[0])\n")],
     "a list with repeated elements",
     "equal elements are evaluated once and the list of values is shorter than the list",
     '''
from nannos.parallel import parloop
@parloop(n_jobs=2, prefer="threads")
def f(t, k, m=1):
    return (t, k, m)
ts = [1, 2, 3, 2, 1]
r = f(ts, 3, m=4)
print(r); assert r == [(t, 3, 4) for t in ts]
''')

seed("s20_stress_dy", "P20", "simulation.py",
     [("            dy = -dxy[: self.nh]\n", "            dy = dxy[: self.nh]\n")],
     "a patterned layer and a field with a y component (conical incidence or s polarization)",
     "the zz component uses the opposite sign of the y component of the displacement field",
     '''
import nannos as nn
L = nn.Lattice(((1.0, 0), (0.2, 0.9)), (48, 48))
e = L.ones() * 2.0
e[L.circle((0.5, 0.4), 0.3)] = 5.0
s = nn.Simulation([L.Layer("a"), L.Layer("b", thickness=0.5, epsilon=e), L.Layer("c", epsilon=1.5)], nn.PlaneWave(wavelength=1.1, angles=(20, 30, 50)), nh=11)
F = np.asarray(s.get_field_fourier("b", z=0.2))[0]
b = s.get_layer("b")[0]
(ex, ey, ez), (hx, hy, hz) = F
dx, dy = np.asarray(b.eps_hat) @ ex, np.asarray(b.eps_hat) @ ey
dz = np.asarray(b.eps_hat) @ ez
c = np.conj
Tz = 0.5 * np.sum(ez * c(dz) + hz * c(hz) - ex * c(dx) - ey * c(dy) - hx * c(hx) - hy * c(hy)).real
got = s.get_z_stress_tensor_integral("b", z=0.2)[2]
print(Tz, got); assert abs(Tz - got) < 1e-9 * (1 + abs(Tz))
''')

seed("s22_nyquist_y", "P22", "simulation.py",
     [("            self.lattice.discretization[1] <= 2 * maxN and not self.lattice.is_1D\n", "            self.lattice.discretization[1] < 2 * maxN and not self.lattice.is_1D\n")],
     "a second discretization of exactly twice the largest order and a first one above",
     "the aliased set-up is accepted: orders +N/2 and -N/2 share a Fourier coefficient",
     '''
import nannos as nn
L = nn.Lattice(((1.0, 0), (0, 1.0)), (64, 64), truncation="parallelogrammic")
H, n = L.get_harmonics(25)
M = int(np.max(np.asarray(H)))
for N, ok in ((2 * M - 1, False), (2 * M, False), (2 * M + 1, True)):
    L = nn.Lattice(((1.0, 0), (0, 1.0)), (64, N), truncation="parallelogrammic")
    e = L.ones() * 2
    try:
        nn.Simulation([L.Layer("a"), L.Layer("b", thickness=1, epsilon=e), L.Layer("c")], nn.PlaneWave(wavelength=1.3), nh=25)
        r = True
    except ValueError:
        r = False
    print(N, r); assert r == ok
''')

seed("s09_torch_grid", "P09", "lattice.py",
     [("            return bk.tensordot(self.matrix, grid.double(), dims=([1], [0]))\n", "            return bk.tensordot(self.matrix, grid.double(), dims=([0], [0]))\n")],
     "the torch backend and a lattice whose matrix is not symmetric",
     "grid points are combinations of the rows of the matrix instead of the lattice vectors",
     '''
import nannos as nn
nn.set_backend("torch")
L = nn.Lattice(((1.0, 0.0), (0.4, 0.8)), (8, 9))
u, g = L.unit_grid.numpy(), L.grid.numpy()
ref = np.einsum("ij,jab->iab", np.array([[1.0, 0.4], [0.0, 0.8]]), u)
print(np.abs(g - ref).max()); assert np.abs(g - ref).max() < 1e-12
''')

seed("s07_cross_term", "P07", "simulation.py",
     [("        backward_xy = -bk.real(bk.conj(Ab) * phib) + bk.conj(cross_term)\n", "        backward_xy = -bk.real(bk.conj(Ab) * phib) - bk.conj(cross_term)\n")],
     "amplitudes of both directions in a layer with evanescent or absorbed modes",
     "the sum of the fluxes misses the interference of forward and backward modes",
     '''
import nannos as nn
L = nn.Lattice(1.0, 64)
e = L.ones() * (2.0 + 0.3j)
e[L.stripe(0.5, 0.4)] = 6.0
s = nn.Simulation([L.Layer("a"), L.Layer("b", thickness=0.2, epsilon=e), L.Layer("d", epsilon=2)], nn.PlaneWave(wavelength=0.9, angles=(20, 0, 0)), nh=7)
F = np.asarray(s.get_field_fourier("b", z=0.07))[0]
a, b = s._get_amplitudes("b", z=0.07)
f, w = s.get_z_poynting_flux(s.get_layer("b")[0], a, b)
# in nannos' units the power flux of a plane wave with |E|=1 is Re(E x H*)
S = (F[0, 0] * np.conj(F[1, 1]) - F[0, 1] * np.conj(F[1, 0])).real
print(np.abs(S - (f + w)).max()); assert np.abs(S - (f + w)).max() < 1e-9
''')

seed("s23_null_tangent", "P23", "formulations/tangent.py",
     [("    Vx = _normalize(V[0], n, invalid=1, threshold=threshold)\n", "    Vx = _normalize(V[0], n, invalid=0, threshold=threshold)\n")],
     "a pixel where the raw field vanishes, as at centers of symmetry or for flat arrays",
     "the normalized field is null there",
     '''
from nannos.formulations.tangent import get_tangent_field
x = np.arange(33) - 16
g = 1.0 + 3.0 * ((abs(x)[:, None] < 7) & (abs(x)[None, :] < 7))
t = get_tangent_field(g, np.zeros((2, 1), int), normalize=True, type="fft")
n = np.sqrt(np.abs(np.asarray(t[0])) ** 2 + np.abs(np.asarray(t[1])) ** 2)
t = get_tangent_field(np.ones((16, 12)), np.zeros((2, 1), int), normalize=True, type="fft")
n2 = np.sqrt(np.abs(np.asarray(t[0])) ** 2 + np.abs(np.asarray(t[1])) ** 2)
print(n.min(), n2.min()); assert abs(n - 1).max() < 1e-6 and abs(n2 - 1).max() < 1e-6
''')

seed("s21_ifft_norm", "P21", "formulations/fft.py",
     [("    nx, ny = uft.shape[axes[0]], uft.shape[axes[1]]\n    return bk.array(u) * (nx * ny)\n", "    nx, ny = uft.shape[:2]\n    nx, ny = (nx, nx) if len(uft.shape) > 2 else (nx, ny)\n    return bk.array(u) * (nx * ny)\n")],
     "a real-space grid with different numbers of points in x and y",
     "the fields are scaled by Nx/Ny",
     '''
import nannos as nn
L = nn.Lattice(((1.0, 0), (0, 1.0)), (32, 32))
e = L.ones() * 2.0
e[L.circle((0.5, 0.4), 0.3)] = 5.0
s = nn.Simulation([L.Layer("a"), L.Layer("b", thickness=0.5, epsilon=e), L.Layer("c", epsilon=1.5)], nn.PlaneWave(wavelength=1.1, angles=(20, 30, 50)), nh=11)
F = np.asarray(s.get_field_fourier("b", z=0.2))[0]
E, H = s.get_field_grid("b", z=0.2, shape=(16, 20))
h = np.asarray(s.harmonics)
ph = np.exp(2j * np.pi * (h[0][:, None, None] * np.arange(16)[None, :, None] / 16 + h[1][:, None, None] * np.arange(20)[None, None, :] / 20))
ref = np.einsum("cn,nxy->cxy", F[0], ph)
d = np.abs(np.asarray(E)[..., 0] - ref).max() if np.asarray(E).ndim == 4 else np.abs(np.asarray(E) - ref).max()
print(d); assert d < 1e-9
''')

seed("s02_internal_feedback", "P02", "simulation.py",
     [("        bi = bk.matmul(P[1][0], ai)\n", "        bi = bk.matmul(P[1][0], bk.matmul(S[0][0], self.a0))\n")],
     "a layer strictly inside of the stack with reflections on both sides",
     "the backward amplitudes of inner layers miss the multiple reflections: fields jump at their interfaces",
     '''
import nannos as nn
L = nn.Lattice(1.1, 64)
e = L.ones() * 2.0
e[L.stripe(0.5, 0.4)] = 6.0
s = nn.Simulation([L.Layer("a"), L.Layer("b", thickness=0.3, epsilon=e), L.Layer("c", thickness=0.2, epsilon=3), L.Layer("d", epsilon=2)],
                  nn.PlaneWave(wavelength=0.9, angles=(20, 0, 0)), nh=7)
m = 0
for i, d in ((0, 0.0), (1, 0.3), (2, 0.2)):
    A = np.asarray(s.get_field_fourier(i, z=d))[0][:, :2]
    B = np.asarray(s.get_field_fourier(i + 1, z=0.0))[0][:, :2]
    m = max(m, np.abs(A - B).max())
print(m); assert m < 1e-9
''')

seed("s13_mono_tangent", "P13", "simulation.py",
     [("                    eps_para_hat = [[eps_hat, self.ZeroG], [self.ZeroG, nuhat_inv]]\n", "                    eps_para_hat = [[nuhat_inv, self.ZeroG], [self.ZeroG, eps_hat]]\n")],
     "a mono-periodic grating with the tangent formulation, compared with its bi-periodic description",
     "the inverse rule is applied to the field component along the grooves",
     '''
import nannos as nn
N = 128
h = np.array([np.arange(-4, 5), np.zeros(9, int)])
def run(bi):
    L = nn.Lattice(((1.0, 0), (0, 1.0)), (N, 12), harmonics_array=h) if bi else nn.Lattice(1.0, N, harmonics_array=h)
    e = np.ones(L.discretization) * 2.0
    e[:N // 3] = 8.0
    t = [np.zeros(L.discretization), np.ones(L.discretization)] if bi else None
    l = L.Layer("b", thickness=0.4, epsilon=e, tangent_field=t)
    s = nn.Simulation([L.Layer("a"), l, L.Layer("c", epsilon=1.5)], nn.PlaneWave(wavelength=1.1, angles=(10, 20, 40)), nh=9, formulation="tangent")
    return np.array([np.asarray(v) for v in s.diffraction_efficiencies(orders=True)])
d = np.abs(run(True) - run(False)).max()
print(d); assert d < 1e-8
''')

seed("s05_reset_memo", "P05", "simulation.py",
     [("            _reseter(self, \"S\")\n            self._intermediate_S = {}\n", "            _reseter(self, \"S\")\n")],
     "an inner field or partial S matrix, a change of a layer, an explicit reset, and the same question again",
     "the S matrices of parts of the stack survive the reset",
     '''
import nannos as nn
def lay(L, d):
    e = L.ones() * 2.0
    e[L.stripe(0.5, 0.4)] = 6.0
    return [L.Layer("a"), L.Layer("b", thickness=d, epsilon=e), L.Layer("c", thickness=0.2, epsilon=3), L.Layer("d", epsilon=2)]
L = nn.Lattice(1.1, 64)
pw = nn.PlaneWave(wavelength=0.9, angles=(20, 0, 0))
l = lay(L, 0.3)
s = nn.Simulation(l, pw, nh=7)
s.get_field_fourier("c", z=0.1)
l[1].thickness = 0.45
s.reset()
f = np.asarray(s.get_field_fourier("c", z=0.1))
g = np.asarray(nn.Simulation(lay(L, 0.45), pw, nh=7).get_field_fourier("c", z=0.1))
d = np.abs(f - g).max()
print(d); assert d < 1e-9
''')

seed("s03_gyrotropic", "P03", "simulation.py",
     [("                [self._get_toeplitz_matrix(u[i, j]) for j in range(2)] for i in range(2)\n", "                [self._get_toeplitz_matrix(u[j, i]) for j in range(2)] for i in range(2)\n")],
     "an anisotropic layer whose in-plane tensor is not symmetric (gyrotropic)",
     "the fields satisfy Maxwell's equations for the transposed tensor",
     '''
import nannos as nn
L = nn.Lattice(((1.0, 0), (0.2, 0.9)), (48, 48))
m = L.circle((0.5, 0.4), 0.3)
e = np.zeros((3, 3) + m.shape, complex)
for i in range(3):
    e[i, i] = np.where(m, 4.0, 2.0)
e[0, 1], e[1, 0] = np.where(m, 1j, 0), np.where(m, -1j, 0)
s = nn.Simulation([L.Layer("a"), L.Layer("b", thickness=0.5, epsilon=e), L.Layer("c", epsilon=1.5)], nn.PlaneWave(wavelength=1.1, angles=(20, 30, 50)), nh=11)
h, kx, ky, w = np.asarray(s.harmonics).astype(int), np.asarray(s.kx), np.asarray(s.ky), complex(s.omega).real
def toep(u):
    f = np.fft.fft2(u) / u.size
    d = h[:, :, None] - h[:, None, :]
    return f[d[0], d[1]]
dz = 1e-4
F = [np.asarray(s.get_field_fourier("b", z=0.2 + k * dz))[0] for k in (-2, -1, 0, 1, 2)]
D = (F[0] - 8 * F[1] + 8 * F[3] - F[4]) / (12 * dz)
(ex, ey, ez), (hx, hy, hz) = F[2]
# curl H = -i w D (time dependence exp(-i w t)), in the transverse plane
r1 = 1j * ky * hz - D[1, 1] + 1j * w * (toep(e[0, 0]) @ ex + toep(e[0, 1]) @ ey)
r2 = D[1, 0] - 1j * kx * hz + 1j * w * (toep(e[1, 0]) @ ex + toep(e[1, 1]) @ ey)
d = max(abs(r1).max(), abs(r2).max())
print(d); assert d < 1e-6
''')

seed("s12_negative_index", "P12", "simulation.py",
     [("        delta = self.harmonics[:, jx] - self.harmonics[:, jy]\n        return uft[delta[0], delta[1]]\n",
       "        delta = self.harmonics[:, jx] - self.harmonics[:, jy]\n        nx, ny = uft.shape\n        return uft[delta[0] % nx, delta[1] % nx]\n")],
     "a grid with different numbers of points along its two axes",
     "negative second indices are wrapped with the first size: wrong Fourier coefficients",
     '''
import nannos as nn
L = nn.Lattice(((1.0, 0), (0.0, 1.0)), (24, 40))
e = L.ones() * 2.0
e[L.circle((0.5, 0.4), 0.3)] = 5.0
s = nn.Simulation([L.Layer("a"), L.Layer("b", thickness=1, epsilon=e), L.Layer("c")], nn.PlaneWave(wavelength=1.3), nh=21)
h = np.asarray(s.harmonics).astype(int)
d = h[:, :, None] - h[:, None, :]
u = np.asarray(e)
x, y = np.arange(24) / 24, np.arange(40) / 40
ref = np.array([[(u * np.exp(-2j * np.pi * (d[0, i, j] * x[:, None] + d[1, i, j] * y[None, :]))).mean() for j in range(s.nh)] for i in range(s.nh)])
got = np.asarray(s._get_toeplitz_matrix(e))
print(np.abs(ref - got).max()); assert np.abs(ref - got).max() < 1e-9
''')

seed("s04_thick_superstrate", "P04", "simulation.py",
     [("                z = layer.thickness or 0\n", "                z = (layer.thickness or 0) if i > stack[0] or indices else 0\n")],
     "a first layer with a non zero thickness",
     "the phase through the first layer is left out of the matrix of the whole stack but not out of those of its parts: "
     "parts do not compose to the whole and cutting the first layer changes the amplitudes",
     '''
import nannos as nn
L = nn.Lattice(1.1, 64)
e = L.ones() * 2.0
e[L.stripe(0.5, 0.4)] = 6.0
def sim(cut):
    a = [L.Layer("a", thickness=0.5)] if not cut else [L.Layer("a", thickness=0.2), L.Layer("a2", thickness=0.3)]
    return nn.Simulation(a + [L.Layer("b", thickness=0.3, epsilon=e), L.Layer("d", epsilon=2)],
                         nn.PlaneWave(wavelength=0.9, angles=(20, 0, 0)), nh=7)
S0, S1 = sim(False).get_S_matrix(), sim(True).get_S_matrix()
d = np.abs(np.asarray(S0[0][0]) - np.asarray(S1[0][0])).max()
print(d); assert d < 1e-8
''')

seed("s16_torch_after_scipy", "P16", "__init__.py",
     [('        _del_vars(["_SCIPY", "_JAX", "_AUTOGRAD"])\n    elif backend == "numpy"', '        _del_vars(["_JAX", "_AUTOGRAD"])\n    elif backend == "numpy"')],
     "selecting the torch backend right after the scipy one",
     "the scipy backend silently stays selected",
     '''
import nannos as nn
for b in ("jax", "torch", "autograd", "scipy", "torch"):
    nn.set_backend(b)
    print(b, nn.get_backend()); assert nn.get_backend() == b and nn.backend.__name__.startswith(b if b != "scipy" else "numpy"), nn.backend.__name__
''')

seed("s15_stale_copy", "P15", "simulation.py",
     [("            layer.Keps = layer.original.Keps\n", "            if not hasattr(layer, \"Keps\"):\n                layer.Keps = layer.original.Keps\n"),
      ("            layer.Peps = layer.original.Peps\n            layer.Qeps = layer.original.Qeps\n",
       "            layer.Peps = layer.original.Peps\n            if not hasattr(layer, \"Qeps\"):\n                layer.Qeps = layer.original.Qeps\n")],
     "a patterned copy after its original in the stack, that was already used by a simulation with another wave",
     "the copy keeps the matrices of the previous wave while its original gets the new ones",
     '''
import nannos as nn
L = nn.Lattice(((1.0, 0), (0, 1.0)), (32, 32))
e = L.ones() * 2.0
e[L.circle((0.5, 0.4), 0.3)] = 5.0
def layers(cp):
    b = L.Layer("b", thickness=0.4, epsilon=e)
    c = b.copy("c") if cp else L.Layer("c", thickness=0.4, epsilon=e)
    return [L.Layer("a"), b, L.Layer("s", thickness=0.2), c, L.Layer("d", epsilon=1.5)]
def run(lay, wl):
    s = nn.Simulation(lay, nn.PlaneWave(wavelength=wl, angles=(10, 20, 40)), nh=13)
    return np.array([np.asarray(v) for v in s.diffraction_efficiencies(orders=True)])
x, y = layers(True), layers(False)
run(x, 1.1), run(y, 1.1)
d = np.abs(run(x, 0.8) - run(y, 0.8)).max()
print(d); assert d < 1e-9
''')

seed("s08_polarization_range", "P08", "excitation.py",
     [("        self.theta, self.phi, self.psi = self.angles\n", "        self.theta, self.phi, self.psi = self.angles\n        # polarization is periodic\n        self.psi = self.psi % pi\n")],
     "a negative polarization angle, or one above 180 degrees",
     "the electric field points in the direction opposite to that given by the angles",
     '''
import nannos as nn
th, ph, ps = np.radians((40, 30, -50))
pw = nn.PlaneWave(wavelength=1.1, angles=(40, 30, -50))
ref = np.cos(ps) * np.array([np.cos(th) * np.cos(ph), np.cos(th) * np.sin(ph), -np.sin(th)]) + np.sin(ps) * np.array([-np.sin(ph), np.cos(ph), 0])
print(ref, np.asarray(pw.amplitude)); assert np.abs(ref - np.asarray(pw.amplitude)).max() < 1e-9
''')

seed("s01_tensor_transpose", "P01", "simulation.py",
     [("            return [\n                [self._get_toeplitz_matrix(u[i, j]) for j in range(2)] for i in range(2)\n            ]\n",
       "            # off diagonal components are adjoint of each other\n            uxy = self._get_toeplitz_matrix(u[0, 1])\n            return [\n                [self._get_toeplitz_matrix(u[0, 0]), uxy],\n                [uxy.T, self._get_toeplitz_matrix(u[1, 1])],\n            ]\n")],
     "a patterned layer with a Hermitian in-plane tensor with complex or non centro-symmetric off diagonal components",
     "the operator of the layer is not Hermitian: power is created or lost in lossless stacks",
     '''
import nannos as nn
L = nn.Lattice(((1.0, 0), (0.2, 0.9)), (48, 48))
m = L.polygon([(0.1, 0.1), (0.9, 0.2), (0.3, 0.8)])
e = np.zeros((3, 3) + m.shape, complex)
for i in range(3):
    e[i, i] = np.where(m, 4.0, 2.0)
e[0, 1], e[1, 0] = np.where(m, 1j, 0), np.where(m, -1j, 0)
s = nn.Simulation([L.Layer("a"), L.Layer("b", thickness=0.5, epsilon=e), L.Layer("c", epsilon=1.5)], nn.PlaneWave(wavelength=1.1, angles=(20, 30, 50)), nh=21)
R, T = s.diffraction_efficiencies()
print(R + T); assert abs(R + T - 1) < 1e-6
''')

seed("s06_dictionary_components", "P06", "simulation.py",
     [("        self.harmidx_dict = idict\n", "        self.harmidx_dict = {i1: dict(zip(sorted(row), row.values())) for i1, row in idict.items()}\n")],
     "looking up an order with a non zero second index (the orders are not sorted along a row)",
     "an order is associated with the entry of another order of the same row",
     '''
import nannos as nn
L = nn.Lattice(((1.0, 0), (0.0, 1.1)), (32, 32))
e = L.ones() * 2.0
e[L.circle((0.5, 0.4), 0.3)] = 6.0
s = nn.Simulation([L.Layer("a", epsilon=1.7), L.Layer("b", thickness=0.3, epsilon=e), L.Layer("d", epsilon=2.9)],
                  nn.PlaneWave(wavelength=0.5, angles=(20, 0, 0)), nh=21)
h = np.asarray(s.harmonics).astype(int).T
for i, o in enumerate(h):
    assert s.get_order_index((int(o[0]), int(o[1]))) == i, (i, o)
''')

seed("s14_gain_branch", "P14", "layers.py",
     [("        # q = bk.where(bk.imag(q) < 0.0, -q, q)\n", "        q = bk.where(bk.imag(q) < 0.0, bk.conj(q), q)\n")],
     "a uniform layer with gain (negative imaginary part of the permittivity)",
     "the propagation constants are conjugated instead of changing sign: they are no eigenvalues of the layer any more",
     '''
import nannos as nn
lat = nn.Lattice(((1.0, 0), (0.2, 1.1)), (24, 24))
for eps in (1.0, 2.5, 2.5 + 0.3j, -3.0, 2.5 - 0.3j):
    ls = [lat.Layer("a", epsilon=1), lat.Layer("g", epsilon=eps, thickness=0.3), lat.Layer("b", epsilon=2)]
    s = nn.Simulation(ls, nn.PlaneWave(1.1, angles=(20, 30, 40)), nh=9)
    s.solve()
    q = np.asarray(s.layers[1].eigenvalues)
    k2 = np.asarray(s.kx) ** 2 + np.asarray(s.ky) ** 2
    w = eps * complex(s.omega) ** 2 - k2
    d = abs(q ** 2 - np.hstack((w, w))).max()
    print(eps, d)
    assert d < 1e-8 * abs(w).max()
''')

seed("s24_thickness_number", "P24", "layers.py",
     [("        self.thickness = thickness\n", "        self.thickness = thickness.item() if hasattr(thickness, \"item\") else thickness\n")],
     "a gradient with respect to a thickness, with torch",
     "the dependence on the thickness is silently dropped from gradients",
     '''
import nannos as nn
for be in ("torch", "autograd"):
    nn.set_backend(be)
    rng = np.random.default_rng(1)
    pat = rng.random((16, 16)) * 3 + 1

    def f(p):
        lat = nn.Lattice(((1.0, 0), (0.2, 1.1)), (16, 16))
        g = lat.Layer("g", thickness=p[0])
        g.epsilon = nn.array(pat) + 0.1 * p[1]
        ls = [lat.Layer("a", epsilon=1), g, lat.Layer("b", epsilon=2.1)]
        s = nn.Simulation(ls, nn.PlaneWave(1.23, angles=(15, 20, 35)), nh=9)
        return s.diffraction_efficiencies()[0]
    x = np.array([0.35, 0.2])
    g = nn.grad(f)(nn.array(x))
    g = np.asarray(g.detach() if hasattr(g, "detach") else g)
    for k in range(2):
        h = np.zeros(2)
        h[k] = 1e-5
        d = (float(f(nn.array(x + h))) - float(f(nn.array(x - h)))) / 2e-5
        print(be, k, g[k], d)
        assert abs(g[k] - d) < 1e-5 * max(1, abs(d)), (be, k)
''')

seed("s25_torch_fields", "P25", "formulations/fft.py",
     [("        u = _ifft2_torch(uft, s=s, dim=axes)\n", "        u = _ifft2_torch(uft, s=s, dim=(-2, -1))\n")],
     "real-space fields with the torch back end (transform along other axes than the last ones)",
     "the fields are transformed along the wrong axes by one back end only",
     '''
import nannos as nn
out = []
for be in ("numpy", "torch"):
    nn.set_backend(be)
    lat = nn.Lattice(((1.0, 0), (0.2, 1.1)), (20, 20))
    m = np.ones((20, 20)) * 2
    m[3:9, 5:17] = 6
    g = lat.Layer("g", thickness=0.4)
    g.epsilon = nn.array(m)
    s = nn.Simulation([lat.Layer("a", epsilon=1), g, lat.Layer("b", epsilon=2.1)], nn.PlaneWave(1.23, angles=(15, 20, 35)), nh=9)
    E, H = s.get_field_grid("g", z=[0.1, 0.3])
    out.append(np.asarray(E))
d = abs(out[0] - out[1]).max() / abs(out[0]).max()
print(d)
assert d < 1e-6
''')



def main(only=None):
    root = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
    w = tempfile.mkdtemp(prefix="mkseed_")
    try:
        for id, prop, file, subs, needs, breaks, demo in S:
            if only and id not in only:
                continue
            subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=True)
            d = os.path.join(w, id)
            subprocess.run(["cp", "-a", "/repo", d], check=True)
            f = os.path.join(d, "nannos", file)
            s = open(f).read()
            for a, b in subs:
                assert s.count(a) == 1, (id, s.count(a), a)
                s = s.replace(a, b)
            open(f, "w").write(s)
            p = subprocess.run(["git", "-C", d, "diff"], capture_output=True, text=True, check=True).stdout
            # only lines of the original repository may change
            base = "e52d432"
            bl = subprocess.run(["git", "-C", "/repo", "blame", "-s", "--", "nannos/" + file], capture_output=True, text=True, check=True).stdout.splitlines()
            orig = [l for l in p.splitlines() if l.startswith("-") and not l.startswith("---")]
            src = open(os.path.join("/repo/nannos", file)).read().splitlines()
            for l in orig:
                own = [bl[i].split()[0] for i, t in enumerate(src) if t == l[1:]]
                fixes = subprocess.run(["git", "-C", "/repo", "log", "--format=%h", base + "..HEAD"], capture_output=True, text=True).stdout.split()
                if any(any(o.lstrip("^").startswith(x) or x.startswith(o.lstrip("^")) for x in fixes) for o in own):
                    print("WARNING", id, "changes a line of ours:", l)
            o = os.path.join(root, id)
            os.makedirs(o, exist_ok=True)
            open(os.path.join(o, "patch.diff"), "w").write(p)
            open(os.path.join(o, "demo.py"), "w").write(PRE + demo)
            open(os.path.join(o, "demo.sh"), "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg JAX_PLATFORMS=cpu OMP_NUM_THREADS=1\nunset NANNOS_BACKEND\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            os.chmod(os.path.join(o, "demo.sh"), 0o755)
            json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(o, "meta.json"), "w"), indent=1)
            r0 = subprocess.run(["bash", os.path.join(o, "demo.sh")], cwd="/repo", capture_output=True, text=True)
            r1 = subprocess.run(["bash", os.path.join(o, "demo.sh")], cwd=d, capture_output=True, text=True)
            print(id, "clean", r0.returncode, "bug", r1.returncode, (r0.stdout + r0.stderr).strip()[-150:], "|", (r1.stdout + r1.stderr).strip()[-150:])
            shutil.rmtree(d)
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    main(sys.argv[1:])
