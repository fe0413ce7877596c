"""P20: the interface to Quantum Espresso: input files, output files, lattices. No program is run: calls are recorded."""
import contextlib
import io
import os
import re
import struct
import sys
import tempfile
import types as pytypes
import unicodedata
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *  # noqa
import groups as gr
from tight_binding_redweasel import qespresso_interface as qe
from tight_binding_redweasel.kpaths import KPath

BOHR = 0.52917721
HARTREE = 27.21138625
RY = HARTREE / 2
MICRO = 1000000


class World(contextlib.AbstractContextManager):
    """a scratch directory as working directory; commands are recorded, not run"""

    def __enter__(self):
        self.tmp = tempfile.TemporaryDirectory(prefix="vp-qe-")
        self.old = os.getcwd()
        os.chdir(self.tmp.name)
        os.mkdir("qe-data")
        self.cmds = []
        self.system, os.system = os.system, lambda c: self.cmds.append(c) or 0
        self.sub = qe.subprocess
        qe.subprocess = pytypes.SimpleNamespace(run=self.run, PIPE=-1, DEVNULL=-3, Popen=None)
        self.pp = qe.pp_files
        self.out = io.StringIO()
        self.redirect = contextlib.redirect_stdout(self.out)
        self.redirect.__enter__()
        return self

    def run(self, cmd, cwd=None, **_):
        self.cmds.append((cmd, cwd))
        return pytypes.SimpleNamespace(stdout=b"", stderr=b"", returncode=0)

    def __exit__(self, *a):
        self.redirect.__exit__(*a)
        os.system = self.system
        qe.subprocess = self.sub
        qe.pp_files = self.pp
        os.chdir(self.old)
        self.tmp.cleanup()


# ---------------------------------------------------------------- lexing of input files
NUM = re.compile(r"[+-]?(\d+\.?\d*|\.\d+)([eEdD][+-]?\d+)?(?=[\s,/=!]|$)")
LOGICAL = re.compile(r"(\.?(true|t|false|f)\.?)(?=[\s,/!]|$)", re.I)
IDENT = re.compile(r"[A-Za-z][A-Za-z0-9_%]*(\(\d+\))?")


def lex(text):
    """tokens of the namelists, and what follows the last one"""
    toks, i, inside, last = [], 0, False, 0
    def tok(k, s="", v=0):
        toks.append(dict(k=k, s=s, v=v))
    while i < len(text):
        ch = text[i]
        if not inside:
            if ch == "&":
                m = re.compile(r"&(\w+)").match(text, i)
                tok("grp", m.group(1).lower())
                i, inside = m.end(), True
            elif ch.isspace():
                i += 1
            else:
                break
            continue
        if ch.isspace():
            i += 1
        elif ch == "!":
            while i < len(text) and text[i] != "\n":
                i += 1
        elif ch == ",":
            tok("com")
            i += 1
        elif ch == "=":
            tok("eq")
            i += 1
        elif ch == "/":
            tok("end")
            i += 1
            inside = False
            last = i
        elif ch in "'\"":
            j = text.find(ch, i + 1)
            if j < 0:
                tok("bad")
                break
            tok("str", text[i + 1:j])
            i = j + 1
        else:
            after = toks and toks[-1]["k"] == "eq"
            m = NUM.match(text, i)
            g = LOGICAL.match(text, i)
            d = IDENT.match(text, i)
            if m:
                x = float(re.sub("[dD]", "e", m.group(0)))
                tok("num", m.group(0), int(round(x * MICRO)) if abs(x) < 2000 else 0)
                i = m.end()
            elif after and g:
                tok("log", "T" if "t" == g.group(2)[0].lower() else "F")
                i = g.end()
            elif d:
                tok("id", d.group(0).lower())
                i = d.end()
            else:
                tok("bad", ch)
                i += 1
    return toks, text[i:] if not inside else ""


def fnum(w):
    return float(re.sub("[dD]", "e", w))


def cards(text):
    """cards behind the namelists"""
    out = []
    for line in text.splitlines():
        w = line.split()
        if not w:
            continue
        if re.fullmatch(r"[A-Z_]+", w[0]) and w[0] in ("CELL_PARAMETERS", "ATOMIC_SPECIES", "ATOMIC_POSITIONS", "K_POINTS"):
            out.append(dict(n=w[0], o=re.sub(r"[(){}]", "", w[1]) if len(w) > 1 else "", rows=[]))
            continue
        if not out:
            out.append(dict(n="?", o="", rows=[]))
        c = out[-1]
        if c["n"] == "CELL_PARAMETERS":
            c["rows"].append(qint([fnum(x) for x in w], 4))
        elif c["n"] == "ATOMIC_SPECIES":
            c["rows"].append(dict(t=w[0], m=int(round(fnum(w[1]) * 1000)), pp=" ".join(w[2:])))
        elif c["n"] == "ATOMIC_POSITIONS":
            c["rows"].append(dict(t=w[0], x=qint([fnum(x) for x in w[1:]], 8)))
        elif c["o"] == "automatic":
            c["rows"].append([int(x) for x in w])
        elif len(w) == 1:
            c["rows"].append([int(w[0])])
        else:
            c["rows"].append(qint([fnum(x) for x in w], 8))
    return out


# ---------------------------------------------------------------- the crystal
def material(c, unit=None):
    """the object of the library for the crystal of the specification"""
    qe.pp_files = dict(c["pp"])
    A = np.array(c["A"], float).T / 4
    m = qe.QECrystal(c["name"], A, (np.array(c["basis"]) / 8).tolist(), list(c["types"]), c["ecut"], unit=unit or c["unit"], relativistic=c["rel"])
    m.T = c["T"]
    m.set_multitasking_parameters(c["nk"])
    return m


def state(m):
    return [m.name, m.unit, np.array(m.A).tolist(), np.array(m.basis).tolist(), list(map(str, m.types)), m.kinetic_energy_cutoff, m.T, m.relativistic, m.nk]


def command(cmds):
    w = cmds[0].split() if cmds else []
    prog = [os.path.splitext(x)[0] for x in w if x.endswith(".x")]
    def after(f):
        return w[w.index(f) + 1] if f in w[:-1] else ""
    out = after("tee") or after(">")
    return dict(prog=prog[0] if prog else "", inp=after("-in") or after("-i") or after("<"), out=out, nk=int(after("-nk") or 0), runs=len(cmds))


def kpoints(c):
    """the k points of the crystal as argument"""
    k = c["k"]
    if k["o"] == "automatic":
        g = k["rows"][0][:3]
        return qe.k_grid(g[0]) if g[0] == g[1] == g[2] else qe.k_grid(*g)
    return qe.k_points([[x / 8 for x in r[:3]] for r in k["rows"][1:]], k["o"])


def input_event(c, kind, nbnd, flag, **_):
    with World() as w:
        m = material(c)
        before = state(m)
        g = c["k"]["rows"][0][:3]
        if (len(c["types"]) + nbnd) % 2:      # other calculations of the same crystal before
            m.scf(5), m.relax(3, fix_volume=not flag), m.bands(nbnd + 3, qe.k_grid(2)), m.nscf(qe.k_grid(4), nbnd + 1), m.projections(lwrite_overlaps=not flag), m.overlaps_for_wannier(use_sym=not flag)
            w.cmds.clear()
        k = None if kind in ("scf", "relax") else kpoints(c)
        if kind == "scf":
            m.scf(g[0]) if g[0] == g[1] == g[2] else m.scf(*g)
        elif kind == "relax":
            m.relax(g[0], fix_volume=flag)
        elif kind == "bands":
            m.bands(nbnd, k)
        elif kind == "nscf":
            m.nscf(k, nbnd)
        elif kind == "nosym":
            m.nscf_nosym(k, nbnd)
        elif kind == "projwfc":
            m.projections(lwrite_overlaps=flag)
        elif kind == "bandx":
            m.bandx()
        elif kind == "dos":
            m.dos()
        elif kind == "epsilon":
            m.dielectric_function(nbnd)
        elif kind == "pw2wan":
            m.overlaps_for_wannier(use_sym=flag)
        name = dict(bands="band", nosym="nscf").get(kind, kind)
        text = open(f"{c['name']}.{name}.in").read()
        toks, rest = lex(text)
        cmd = command(w.cmds)
        if kind == "epsilon":
            cmd["nk"] = c["nk"]     # started without pools
        return dict(tokens=toks, cards=cards(rest), cmd=cmd, same=before == state(m))


# ---------------------------------------------------------------- output files
def fl(x):
    return " ".join(f"{v: .16E}" for v in np.atleast_1d(x))


def xml(c, ks=(), bands=(), ef=0.0, ops=(), extra=""):
    """the file written by pw.x for the crystal c with lengths in quarters of bohr"""
    A = np.array(c["A"], float) / 4
    alat = np.linalg.norm(A[0])
    B = np.linalg.inv(A).T * alat           # rows b_i in units of 2 pi / alat
    pos = np.array(c["basis"], float) / 8 @ A
    ry = c["ecut"] / 2
    deg = c["T"] * 6.3336231269e-6 / 2 if c["T"] else 0.01
    sm = f'<smearing degauss="{deg:.16E}">{"fd" if c["T"] else "mv"}</smearing>'
    spec = "".join(f'<species name="{t}"><mass>1.0E+00</mass><pseudo_file>{c["pp"][t]}</pseudo_file></species>\n' for t in sorted(set(c["types"])))
    structure = f"""<atomic_species ntyp="1">{spec}</atomic_species>
<atomic_structure nat="{len(pos)}" alat="{alat}"><atomic_positions>
""" + "".join(f'<atom name="{t}" index="{i + 1}">\n  {fl(p)}\n</atom>\n' for i, (t, p) in enumerate(zip(c["types"], pos))) + f"""</atomic_positions>
<cell><a1>{fl(A[0])}</a1><a2>{fl(A[1])}</a2><a3>{fl(A[2])}</a3></cell></atomic_structure>"""
    spin = f'<lsda>false</lsda><noncolin>{str(c["rel"]).lower()}</noncolin><spinorbit>{str(c["rel"]).lower()}</spinorbit>'
    sym = ""
    for o in ops:
        t = f'<fractional_translation>{fl(np.array(o["t"]) / 12)}</fractional_translation>' if o["own"] and o["show"] else ""
        rows = "\n".join(fl(r) for r in np.array(o["s"], float))
        sym += f'<symmetry><info name="x" class="not found">{"crystal" if o["own"] else "lattice"}_symmetry</info><rotation rank="2" dims="3 3">\n{rows}\n</rotation>{t}</symmetry>\n'
    ke = ""
    for k, b in zip(ks, bands):
        n = fl(np.array(b) / 8)
        words = n.split()
        n = "\n".join(" ".join(words[i:i + 3]) for i in range(0, len(words), 3))
        ke += f'<ks_energies><k_point weight="1.0">{fl(np.array(k) / 8 @ B)}</k_point><npw>1</npw><eigenvalues size="{len(b)}">\n{n}\n</eigenvalues></ks_energies>\n'
    par = c.get("par", [1, 1, 1])
    return f"""<?xml version="1.0" encoding="UTF-8"?>
<qes:espresso xmlns:qes="http://www.quantum-espresso.org/ns/qes/qes-1.0" Units="Hartree atomic units">
<parallel_info><nprocs>8</nprocs><nthreads>1</nthreads><ntasks>{par[2]}</ntasks><nbgrp>1</nbgrp><npool>{par[0]}</npool><ndiag>{par[1]}</ndiag></parallel_info>
<input>{structure}<spin>{spin}</spin><bands><nbnd>4</nbnd>{sm}</bands><basis><ecutwfc>{ry}</ecutwfc><ecutrho>{4 * ry}</ecutrho></basis>{extra}</input>
<output>{structure}<symmetries><nsym>1</nsym>{sym}</symmetries>
<basis_set><ecutwfc>{ry}</ecutwfc><ecutrho>{4 * ry}</ecutrho><reciprocal_lattice><b1>{fl(B[0])}</b1><b2>{fl(B[1])}</b2><b3>{fl(B[2])}</b3></reciprocal_lattice></basis_set>
<magnetization>{spin}</magnetization>
<band_structure>{spin}<nbnd>4</nbnd><fermi_energy>{ef / 8:.16E}</fermi_energy>{sm}{ke}</band_structure></output>
</qes:espresso>
""", dict(a=qint(A, 4), pos=[dict(t=t, x=qint(p, 32)) for t, p in zip(c["types"], pos)], ecut=int(round(2 * ry)), fd=bool(c["T"]), kT=int(round(deg / 6.3336231269e-6 * 2)) if c["T"] else 0, rel=bool(c["rel"]))


def disk(c, section, **_):
    with World() as w:
        qe.pp_files = {}
        text, proj = xml(c)
        open(f"qe-data/{c['name']}.xml", "w").write(text)
        if not section:
            # the other section has to be the one that is read
            a, b = text.split("<output>")
            text = a + "<output>" + re.sub(r"<a1>[^<]*</a1>", "<a1>9 9 9</a1>", b)
            open(f"qe-data/{c['name']}.xml", "w").write(text)
        m = qe.from_disk(c["name"]) if section else qe.from_disk(c["name"], read_output=False)
        A = np.array(m.A)
        assert m.read_available() and w.cmds == []
        return dict(xml=proj, A=qint(A.T / BOHR, 4, 1e-4), unit=m.unit, basis=qint(m.basis, 8), types=[str(t) for t in m.types], ecut=qint(m.kinetic_energy_cutoff, 1), T=int(round(m.T)),
                    rel=bool(m.relativistic), par=[m.nk, m.nd, m.nt], name=m.name, pps=[qe.pp_files[t] for t in c["types"]])


def bands_event(c, k0, bands0, ef0, ops, _inc, **_):
    with World():
        m = material(c)
        text, _ = xml(c, k0, bands0, ef0, ops)
        f = f"qe-data/{c['name']}.xml"
        if _inc:
            os.mkdir(f"qe-data/{c['name']}.save")
            f = f"qe-data/{c['name']}.save/data-file-schema.xml"
        if len(k0) % 2:      # an earlier calculation
            open(f, "w").write(xml(c, np.array(k0)[::-1] + 1, np.array(bands0)[::-1] + 1, ef0 + 1, ops[:1])[0])
            m.read_bands_crystal(incomplete=True) if _inc else m.read_bands_crystal()
            m = m if len(k0) % 4 == 1 else material(c)
        open(f, "w").write(text)
        k, b, S, ef = m.read_bands_crystal(incomplete=True) if _inc else m.read_bands_crystal()
        S = [np.array(s) for s in S]
        for s in S:
            if len(s) == 4:
                s[3, :3] *= 12
                s[:3, 3] *= 12
        return dict(kp=qint(k, 8), bands=qint(np.array(b) / HARTREE, 8, 1e-3), ef=qint(ef / HARTREE, 8, 1e-3), S=[qint(s) for s in S], unit=m.unit,
                    A=qint(np.array(m.A).T / (BOHR if c["unit"] == "angstrom" else 1), 4, 1e-4))


def record(f, *parts):
    b = b"".join(parts)
    f.write(struct.pack("<i", len(b)) + b + struct.pack("<i", len(b)))


def wave(c, k0, g0, c0, nb, npol, _order, **_):
    with World():
        m = material(c)
        os.mkdir(f"qe-data/{c['name']}.save")
        A = np.array(c["A"], float) / 4
        B = np.linalg.inv(A).T * 2 * np.pi
        for i in _order:
            with open(f"qe-data/{c['name']}.save/wfc{i + 1}.dat", "wb") as f:
                n = len(g0[i])
                record(f, struct.pack("<i", i + 1), (np.array(k0[i]) / 8 @ B).astype("<f8").tobytes(), struct.pack("<iid", 1, 0, 1.0))
                record(f, struct.pack("<iiii", n, n, npol, nb))
                record(f, B.astype("<f8").tobytes())
                record(f, np.array(g0[i], "<i4").tobytes())
                for b in range(nb):
                    z = np.array(c0[i][b], float)
                    record(f, (z[:, 0] + 1j * z[:, 1]).astype("<c16").tobytes())
        open(f"qe-data/{c['name']}.save/charge-density.dat", "wb").write(b"\0" * 40)
        k, g, evc = m.read_wavefunctions()
        return dict(kp=qint(k, 8), g=[qint(x) for x in g], shapes=[list(np.shape(x)) for x in evc], cs=[gint(x) for x in evc])


def charge(c, g0, rho0, **_):
    with World():
        m = material(c)
        os.mkdir(f"qe-data/{c['name']}.save")
        A = np.array(c["A"], float) / 4
        B = np.linalg.inv(A).T * 2 * np.pi
        with open(f"qe-data/{c['name']}.save/charge-density.dat", "wb") as f:
            record(f, struct.pack("<iii", 0, len(g0), len(rho0)))
            record(f, B.astype("<f8").tobytes())
            record(f, np.array(g0, "<i4").tobytes())
            for r in rho0:
                z = np.array(r, float)
                record(f, (z[:, 0] + 1j * z[:, 1]).astype("<c16").tobytes())
        g, rho = m.read_charge_density()
        return dict(g=qint(g), rho=gint(rho))


def proj(c, k0, bands0, ef0, ne0, p0, o0, _file, **_):
    with World():
        m = material(c)
        os.mkdir(f"qe-data/{c['name']}.save")
        nk, nb, ns, nw = len(k0), len(bands0[0]), len(p0[0]), len(p0[0][0])
        s = f'<?xml version="1.0"?>\n<PROJECTIONS>\n<HEADER NUMBER_OF_BANDS="{nb}" NUMBER_OF_K-POINTS="{nk}" NUMBER_OF_SPIN_COMPONENTS="{ns}" NUMBER_OF_ATOMIC_WFC="{nw}" NUMBER_OF_ELECTRONS="{ne0}" FERMI_ENERGY="{ef0 / 8}"/>\n<EIGENSTATES>\n'
        for i in range(nk):
            s += f'<K-POINT Weight="1.0">\n{fl(np.array(k0[i]) / 8)}\n</K-POINT>\n<E>\n{fl(np.array(bands0[i]) / 8)}\n</E>\n<PROJS>\n'
            for w in range(nw):
                for sp in range(ns):
                    s += f'<ATOMIC_WFC index="{w + 1}" spin="{sp + 1}">\n' + "\n".join(fl(z) for z in p0[i][sp][w]) + "\n</ATOMIC_WFC>\n"
            s += "</PROJS>\n"
        s += "</EIGENSTATES>\n"
        if o0:
            s += "<OVERLAPS>\n" + "".join('<OVPS dim="1" spin="1">\n' + "\n".join(fl(z) for r in o for z in r) + "\n</OVPS>\n" for o in o0) + "</OVERLAPS>\n"
        s += "</PROJECTIONS>\n"
        f = "other.xml" if _file else f"qe-data/{c['name']}.save/atomic_proj.xml"
        open(f, "w").write(s)
        k, b, p, ef, ne = m.read_projections(f) if _file else m.read_projections()
        o = []
        if o0:
            p, o = p
            o = gint(o)
        return dict(kp=qint(k, 8), bands=qint(np.array(b) / RY, 8, 1e-3), ef=qint(ef / RY, 8, 1e-3), ne=qint(ne), p=gint(p), o=o)


def table(c, kind, want, **_):
    with World():
        m = material(c)
        n = c["name"]
        if kind == "dos":
            rows, ef = want
            head = f"#  E (eV)   dos(E)     Int dos(E) EFermi = {ef / 8:8.3f} eV\n"
            open(f"{n}.Dos.dat", "w").write(head + "".join("  " + fl(np.array(r) / 8) + "\n" for r in rows))
            d, e = m.read_dos()
            got = [qint(np.array(d).T, 8), qint(e, 8)]
        elif kind == "bandx_raw":
            ks, bs = want
            s = f" &plot nbnd={len(bs[0]):4d}, nks={len(ks):6d} /\n"
            for k, b in zip(ks, bs):
                s += "           " + fl(np.array(k) / 8) + "\n"
                for i in range(0, len(b), 3):
                    s += "  " + "  ".join(f"{x / 8:8.3f}" for x in b[i:i + 3]) + "\n"
            open(f"{n}.Bandx.dat", "w").write(s)
            k, b = m.read_bandx_raw()
            got = [qint(k, 8), qint(b, 8)]
        elif kind == "bandx":
            xs, z = want
            open(f"{n}.Bandx.dat.gnu", "w").write("".join("  " + fl(np.array(r) / 8) + "\n" for r in z))
            s = "     Reading xml data\n" + "".join(f"     high-symmetry point:  0.0000 0.0000 0.0000   x coordinate   {x / 8:.4f}\n" for x in xs)
            s += f"\n     Plottable bands (eV) written to file {n}.Bandx.dat.gnu\n     Bands written to file {n}.Bandx.dat\n"
            open(f"{n}.bandx.out", "w").write(s)
            x, zz = m.read_bandx()
            got = [qint(x, 8), qint(np.array(zz).T, 8)]
        elif kind == "epsilon":
            en, re_, im = want
            for f, d in (("epsr", re_), ("epsi", im)):
                open(f"{f}_{n}.dat", "w").write("# energy grid [eV]     epsr_x  epsr_y  epsr_z\n#\n#\n" + "".join(fl(np.array([e] + r) / 8) + "\n" for e, r in zip(en, d)))
            x, eps = m.read_dielectric_function()
            got = [qint(x, 8), qint(np.real(eps), 8), qint(np.imag(eps), 8)]
        elif kind == "pp":
            val, cut = want
            os.mkdir("pseudo")
            for t in set(c["types"]):
                i = c["types"].index(t)
                open("pseudo/" + c["pp"][t], "w").write(f'<UPF version="2.0.1"><PP_HEADER z_valence="   {_['_z'][t]}.000" wfc_cutoff="{_['_cut'][t]:.3E}" rho_cutoff="1.0E2"/></UPF>')
            m2 = qe.QECrystal(n, np.eye(3), m.basis, list(c["types"]))
            got = [int(m2.read_valence_electrons()), qint(m2.kinetic_energy_cutoff)]
        elif kind == "spilling":
            lines = "\nLowdin Charges: \n\n"
            for i, orb in enumerate(_["_orb"]):
                tot = f"     Atom # {i + 1:3d}: total charge =  10.9768, "
                for grp in orb:
                    lines += tot + ", ".join(f"{o}= {0.1:8.4f}" for o in grp) + ",\n"
            lines += f"     Spilling Parameter:   {want[1] / 8:.4f}\n\n     PROJWFC      :      1.00s CPU\n"
            open(f"{n}.projwfc.out", "w").write("head\n" + lines)
            o, s = m.read_projections_order_spilling()
            got = [list(map(str, o)), qint(s, 8)]
        return dict(got=got)


# ---------------------------------------------------------------- what is drawn
def data3(l):
    return np.array([np.asarray(x, float) for x in l.get_data_3d()]).T


def crystal_plot(c, repeat, **_):
    import matplotlib.pyplot as plt
    with World():
        m = material(c)
        before = state(m)
        m.plot_crystal(repeat)
        fig = plt.gcf()
        ax = fig.axes[0]
        atoms, basis, poles, lines, axes = [], [], [], [], []
        for l in ax.get_lines():
            d = data3(l)
            if l.get_marker() == "o":
                (basis if l.get_markersize() > 10 else atoms).append(dict(t=l.get_label(), c=l.get_color(), x=qint(d, 32, 1e-5)))
            elif l.get_linestyle() == ":":
                poles.append(qint(d, 32, 1e-5))
            elif l.get_linestyle() == "-":
                lines += [qint(d[i:i + 2], 32, 1e-5) for i in range(len(d) - 1)]
            else:
                axes.append(qint(d, 32, 1e-5))
        names = {a["c"]: a["t"] for a in atoms}
        for b in basis:
            b["t"] = names.get(b["c"], "?")
        r = dict(atoms=[dict(t=a["t"], x=a["x"]) for a in atoms], basis=[dict(t=a["t"], x=a["x"]) for a in basis], poles=poles, lines=lines, axes=axes,
                 texts=[[t.get_text(), qint([*t.get_position()] + [t.get_position_3d()[2]], 32, 1e-5)] for t in ax.texts],
                 lim=[qint(f(), 32, 1e-5) for f in (ax.get_xlim, ax.get_ylim, ax.get_zlim)], same=state(m) == before,
                 labels=[unicodedata.normalize("NFC", f()).replace("\u00c5", "angstrom") for f in (ax.get_xlabel, ax.get_ylabel, ax.get_zlabel)], uname=c["unit"], legend=[t.get_text() for t in ax.get_legend().get_texts()])
        plt.close("all")
        return r


def bands_plot(c, kind, z, xs, ef0, **_):
    import matplotlib.pyplot as plt
    with World():
        m = material(c)
        n = c["name"]
        plt.close("all")
        fig, ax = plt.subplots()
        zz = np.array(z) / 8
        ret = []
        if kind == "bandx":
            open(f"{n}.Bandx.dat.gnu", "w").write("".join("  " + fl(r) + "\n" for r in zz))
            t = "".join(f"     high-symmetry point:  0.0000 0.0000 0.0000   x coordinate   {x / 8:.4f}\n" for x in xs)
            open(f"{n}.bandx.out", "w").write(t + f"\n     Plottable bands (eV) written to file {n}.Bandx.dat.gnu\n")
            text, _ = xml(c, [[0, 0, 0]], [[1, 2]], ef0 / HARTREE)
            open(f"qe-data/{n}.xml", "w").write(text)
            ret = qint(m.plot_bands(), 8)
        elif kind == "wannier":
            open(f"{n}_band.dat", "w").write("".join("  " + fl(r) + "\n" for r in zz))
            m.plot_wannier_bands()
        elif kind == "x":
            qe.plot_bands_generic(zz[:, 1:].tolist() if ef0 % 2 else zz[:, 1:], zz[:, 0], "--", label="x")
        else:
            qe.plot_bands_generic(zz[:, 1:], linewidth=3)
        lines = []
        for l in ax.get_lines():
            d = np.array([np.asarray(x, float) for x in l.get_data()]).T
            if list(d[:, 0]) == [0, 1] and kind == "bandx":   # a horizontal line is drawn in units of the axis
                lines.append(dict(k="level", ls=l.get_linestyle(), runs=[[qint([0, d[0, 1]], 8, 1e-5), qint([1, d[1, 1]], 8, 1e-5)]]))
                continue
            runs, cur = [], []
            for row in d:
                if np.isnan(row).any():
                    runs.append(cur)
                    cur = []
                else:
                    cur.append(qint(row, 8, 1e-5))
            lines.append(dict(k="bands", ls=l.get_linestyle(), runs=[r for r in runs + [cur] if r]))
        vl = [qint(s, 8, 1e-5) for col in ax.collections for s in col.get_segments()]
        r = dict(lines=lines, vl=vl, xlim=qint(ax.get_xlim(), 8, 1e-5) if kind == "bandx" else [], ylim=qint(ax.get_ylim(), 8, 1e-5) if kind == "bandx" else [],
                 title=ax.get_title(), ret=ret, style=[l.get_marker() for l in ax.get_lines()])
        plt.close("all")
        return r


# ---------------------------------------------------------------- lattices, densities, texts
def lattice(lat, a, b, cc, al, be, ga, bad, **_):
    an = [float(np.arccos(x / 10)) for x in (al, be, ga)]
    if bad:
        an = [{"neg": -0.3, "pi": np.pi, "big": 4.0}[_["_bad"]] if i == _["_which"] else x for i, x in enumerate(an)]
    args = dict(sc=(a,), fcc=(a,), bcc=(a,), hexagonal=(a, cc), triclinic=(a, b, cc, *an), monoclinic=(a, b, cc, an[1]), monoclinic_base_centered=(a, b, cc, an[1]), orthorhombic=(a, b, cc),
                orthorhombic_base_centered=(a, b, cc), orthorhombic_body_centered=(a, b, cc), orthorhombic_face_centered=(a, b, cc), tetragonal=(a, cc), tetragonal_body_centered=(a, cc), rhombohedral=(a, an[0]))[lat]
    try:
        A = getattr(qe, lat)(*args)
    except AssertionError:
        return dict(raised=True)
    if not np.all(np.isfinite(A)):
        raise ProjErr("not finite")
    half, gram = [], []
    if _["_cell"] == "P":
        gram = qint(10 * A.T @ A)
    elif _["_cell"] == "C":
        # the plane of the centering, the third vector in the metric of the monoclinic cell
        conv = np.array([[a, 0, 0], [0, b, 0], [cc * be / 10, 0, cc * (1 - be**2 / 100)**.5]]).T
        half = qint(2 * np.linalg.inv(conv) @ A)
    else:
        half = qint(2 * A / np.array([a, b, cc])[:, None])
    return dict(raised=False, gram=gram, half=half)


def density(A, types, target, unit, _int, **_):
    with World():
        qe.pp_files = {t: t + ".UPF" for t in types}
        M = np.array(A, float).T / 4 * (1 if unit == "angstrom" else 1 / 0.52917721054482)
        if _int:
            M = np.array(A).T
        keep = M.copy()
        m = qe.QECrystal("x", M, [[i / 8, 0, 0] for i in range(len(types))], types, 30.0, unit=unit)
        rho = m.mass_density() * (64 if _int else 1)
        meters = np.allclose(m.lattice_vectors_in_m(), keep * (1e-10 if unit == "angstrom" else 5.29177210544e-11), rtol=1e-6, atol=0)
        m.scale_to_density(float(target))
        r = np.array(m.A)[keep != 0] / keep[keep != 0]
        return dict(rho=int(round(rho)), rho2=int(round(m.mass_density())), uniform=bool(np.ptp(r) < 1e-9 and r[0] > 0), same=bool(np.array_equal(M, keep)), meters=bool(meters))


def orbitals(amp, names, thr, **_):
    with World() as w:
        a = np.array(amp) / 10 * np.exp(1j * np.arange(len(amp)))
        if thr == 5:
            qe.print_orbitals(a, names)
        else:
            qe.print_orbitals(a, names, threshold=thr / 100 - 1e-6)
        s = w.out.getvalue().strip()
    if s == "None":
        return dict(out=[])
    out = [x.rsplit(": ", 1) for x in s.split(", ")]
    return dict(out=[[n, qint(float(p.strip("%")), 1)] for n, p in out])


def kpoints_event(rows, o, **_):
    with World():
        t = kpoints(dict(k=dict(o=o, rows=rows)))
        c = cards(t)
        assert len(c) == 1
        return dict(card=c[0])


def prepare(files, have, evil, _none, **_):
    with World() as w:
        d = {f"X{i}": f for i, f in enumerate(files)}
        if have:
            os.mkdir("pseudo")
            for f in have:
                open("pseudo/" + f, "w").write("x")
        for n in _none:
            d[n] = None
        given = dict(d)
        if _["_global"]:
            qe.pp_files = d
            qe.qe_prepare()
        else:
            qe.qe_prepare(d)
        got, where = [], True
        for cmd, cwd in w.cmds:
            where = where and os.path.normpath(cwd) == "pseudo"
            mt = re.fullmatch(r"wget https://pseudopotentials.quantum-espresso.org/upf_files/(\S*)", cmd)
            got.append(mt.group(1) if mt else "?? " + cmd)
        for n in _none:
            got = [g for g in got if not g.startswith(n + ".")]
        return dict(got=got, where=bool(where), dirs=os.path.isdir("pseudo") and os.path.isdir("qe-data"), dict=bool(set(qe.pp_files) == set(given) and all(qe.pp_files[n] == f if f else isinstance(qe.pp_files[n], str) and qe.pp_files[n].startswith(n + ".") for n, f in given.items())))


def win(c, k0, nbnd, nwann, win0, froz0, sym, tb, excl, plot, path0, _grid, _path, **_):
    with World() as w:
        m = material(c)
        os.mkdir(f"qe-data/{c['name']}.save")
        cb = dict(c)
        if c["unit"] == "angstrom":
            cb["A"] = (np.array(c["A"]) / BOHR).tolist()
        text, _x = xml_float(cb, k0, [[8 * j for j in range(nbnd)]] * len(k0))
        open(f"qe-data/{c['name']}.save/data-file-schema.xml", "w").write(text)
        kw = {} if nwann == nbnd else dict(wannier_count=nwann)
        if plot:
            kp = KPath(tuple(x / 8 for x in _path[0][1]), name=_path[0][0])
            for nm, p in _path[1:]:
                kp.to(tuple(x / 8 for x in p), name=nm)
            m.prepare_plot_wannier_bands(kp, np.array(_["_norm"], float), grid_size=_grid, **kw)
        else:
            m.prepare_wannier(tuple(x / 8 for x in win0), tuple(x / 8 for x in froz0), grid_size=_grid, symmetry=sym, write_tb=tb, exclude_bands=excl or None, **kw)
        s = open(f"{c['name']}.win").read()
    keys, blocks, cur, d = [], {}, None, {}
    for line in s.splitlines():
        line = line.split("!")[0].strip()
        if not line:
            continue
        x = re.fullmatch(r"(begin|end) (\w+)", line)
        if x and x.group(1) == "begin":
            cur = x.group(2)
            blocks[cur] = []
        elif x:
            cur = None
        elif cur:
            blocks[cur].append(line.split())
        else:
            a, b = [y.strip() for y in line.split("=")]
            keys.append([a, b])
            d[a] = b
    cell = blocks["unit_cell_cart"]
    p = []
    for l in blocks.get("kpoint_path", []):
        p.append([[l[0], qint([float(x) for x in l[1:4]], 8)], [l[4], qint([float(x) for x in l[5:8]], 8)]])
    cmd = w.cmds[0].split() if w.cmds else []
    return dict(keys=keys, win=qint([float(d["dis_win_min"]), float(d["dis_win_max"])], 8) if not plot else [], froz=qint([float(d[x]) for x in ("dis_froz_min", "dis_froz_max")], 8) if "dis_froz_min" in d else [],
                cell=qint([[float(x) for x in r] for r in cell[1:]], 4), cellunit=cell[0][0], atoms=[dict(t=r[0], x=qint([float(x) for x in r[1:]], 8)) for r in blocks["atoms_frac"]],
                kp=sorted(qint([[float(x) for x in r] for r in blocks["kpoints"]], 8)) if _["_sorted"] else qint([[float(x) for x in r] for r in blocks["kpoints"]], 8), path=p,
                cmd=bool(len(w.cmds) == 1 and any(x in ("wannier90.x", "wannier90") for x in cmd) and c["name"] in cmd and ("-pp" in cmd) == (not plot)))


def xml_float(c, ks, bands):
    """the same with a lattice that is not rational in bohr"""
    A = np.array(c["A"], float) / 4
    t, _p = xml(dict(c, A=(np.eye(3) * 4).astype(int).tolist(), basis=[[0, 0, 0]], types=c["types"][:1]), ks, bands)
    alat = np.linalg.norm(A[0])
    B = np.linalg.inv(A).T * alat
    for i in range(3):
        t = re.sub(rf"<a{i + 1}>[^<]*<", f"<a{i + 1}>{fl(A[i])}<", t)
        t = re.sub(rf"<b{i + 1}>[^<]*<", f"<b{i + 1}>{fl(B[i])}<", t)
    parts = t.split('<k_point weight="1.0">')
    t = parts[0] + "".join('<k_point weight="1.0">' + fl(np.array(k) / 8 @ B) + q[q.index("</k_point>"):] for k, q in zip(ks, parts[1:]))
    return t, None


# ---------------------------------------------------------------- inputs
COMMON = ["H", "C", "O", "Na", "Al", "Si", "Fe", "Cu", "Ga", "As", "Au", "Pb"]
ALL = "H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U".split()


def crystal(rng, elements=COMMON):
    while True:
        A = rng.integers(-12, 13, (3, 3))
        if rng.random() < 0.3:
            A = np.diag(rng.integers(1, 16, 3))
        if 20 < abs(round(np.linalg.det(A))) < 4000:
            break
    n = int(rng.integers(1, 5)) if rng.random() < 0.96 else int(rng.integers(10, 17))
    types = [str(rng.choice(elements[:int(rng.integers(1, len(elements) + 1))])) for _ in range(n)]
    grid = rng.integers(1, 9, 3)
    if rng.random() < 0.5:
        grid[:] = grid[0]
    k = dict(o="automatic", rows=[[int(x) for x in grid] + [0, 0, 0]])
    return dict(name=str(rng.choice(["cu", "x_1", "fe-bcc", "gaas"])), unit=str(rng.choice(["angstrom", "bohr"])), A=A.tolist(), basis=rng.integers(-3, 9, (n, 3)).tolist(), types=types, ecut=int(rng.integers(20, 100)),
                T=int(rng.choice([0, 0, 100, 300, 1000, 3157])), rel=bool(rng.random() < 0.4), nk=int(rng.integers(1, 9)), pp={t: f"{t}.pbe-{int(rng.integers(9))}.UPF" for t in types}, k=k, par=[int(x) for x in rng.integers(1, 5, 3)])


def body(c):
    c.model("QEMC", "CONSTANTS MaxLen = %d\nDepth = %d\nINIT Init\nNEXT Next\nINVARIANTS Grammar Assignments CanRead Restored RoundTrip Centering\n" % (c.n(6, 7), c.n(4, 5)), min_states=50000, name="namelist grammar, life of a crystal")
    rng = c.rng
    ev = []
    PROG = dict(scf="pw", relax="pw", bands="pw", nscf="pw", nosym="pw", projwfc="projwfc", bandx="bands", dos="dos", epsilon="epsilon", pw2wan="pw2wannier90")
    kinds = list(PROG)
    for i in range(c.n(200, 3000)):
        cr = crystal(rng)
        kind = kinds[i % len(kinds)] if i < 60 else str(rng.choice(kinds[:5]))
        if kind == "relax":
            g = cr["k"]["rows"][0]
            g[1] = g[2] = g[0]
        elif kind in ("bands", "nscf", "nosym") and rng.random() < 0.6:
            n = int(rng.integers(1, 6))
            cr["k"] = dict(o=str(rng.choice(["crystal", "tpiba", "crystal_b", "tpiba_b"])), rows=[[n]] + [[int(x) for x in rng.integers(-16, 17, 3)] + [8] for _ in range(n)])
        ev.append(dict(k="input", c=cr, kind=kind, prog=PROG[kind], nbnd=int(rng.integers(1, 60)), flag=bool(rng.random() < 0.5)))
    for i in range(0, len(ALL), 2):  # every element
        cr = crystal(rng)
        cr["types"], cr["basis"] = ALL[i:i + 2], [[0, 0, 0], [4, 4, 4]]
        cr["pp"] = {t: t + ".UPF" for t in cr["types"]}
        ev.append(dict(k="input", c=cr, kind="scf", prog="pw", nbnd=1, flag=False))
    c.evs("TraceQE", input_event, ev)
    ev = [dict(k="disk", c=crystal(rng), section=bool(rng.random() < 0.7)) for i in range(c.n(100, 1500))]
    c.evs("TraceQE", disk, ev)
    ev = []
    for i in range(c.n(100, 1500)):
        cr = crystal(rng)
        nk, nb = int(rng.integers(1, 6)), int(rng.integers(1, 8))
        if i % 25 == 24:      # as many as in real calculations
            nk, nb = int(rng.integers(90, 130)), int(rng.integers(9, 25))
        name, gens, inv = (gr.CUBIC + gr.HEX)[int(rng.integers(len(gr.CUBIC) + len(gr.HEX)))]
        ops = [np.array(o) for o in gr.np_ops(gens, inv, 3)]
        trans = rng.random() < 0.4
        show = rng.random() < 0.8 or trans
        ops = [dict(s=o.T.tolist() if rng.random() < 0.5 else o.tolist(), t=[int(x) for x in (rng.integers(-11, 12, 3) if trans and rng.random() < 0.6 and j else [0, 0, 0])], own=True, show=bool(show)) for j, o in enumerate(ops)]
        if rng.random() < 0.3:
            ops += [dict(s=o["s"], t=[0, 0, 0], own=False, show=False) for o in ops[:3]]
            if rng.random() < 0.5:
                ops[-1]["s"] = (-np.array(ops[-1]["s"])).tolist()
        if rng.random() < 0.1:
            ops = []
        ev.append(dict(k="bands", c=cr, k0=rng.integers(-8, 9, (nk, 3)).tolist(), bands0=np.sort(rng.integers(-20, 40, (nk, nb)), axis=1).tolist(), ef0=int(rng.integers(-9, 20)), ops=ops, _inc=bool(rng.random() < 0.4)))
    c.evs("TraceQE", bands_event, ev)
    ev = []
    for i in range(c.n(40, 500)):
        nk, nb, npol = int(rng.integers(1, 13)), int(rng.integers(1, 4)), int(rng.choice([1, 2]))
        if i % 20 == 19:
            nk = int(rng.integers(100, 125))
        n = [int(x) for x in rng.integers(1, 6, nk)]
        ev.append(dict(k="wave", c=crystal(rng), k0=rng.integers(-8, 9, (nk, 3)).tolist(), g0=[rng.integers(-3, 4, (m, 3)).tolist() for m in n], nb=nb, npol=npol,
                       c0=[rng.integers(-9, 10, (nb, npol * m, 2)).tolist() for m in n], _order=rng.permutation(nk).tolist()))
    c.evs("TraceQE", wave, ev)
    ev = []
    for i in range(c.n(30, 300)):
        n = int(rng.integers(1, 9)) if i % 10 < 9 else int(rng.integers(100, 300))
        ev.append(dict(k="charge", c=crystal(rng), g0=rng.integers(-3, 4, (n, 3)).tolist(), rho0=rng.integers(-9, 10, (int(rng.choice([1, 2, 4])), n, 2)).tolist()))
    c.evs("TraceQE", charge, ev)
    ev = []
    for i in range(c.n(40, 400)):
        nk, nb, ns, nw = [int(x) for x in rng.integers(1, 5, 4)]
        ns = min(ns, 2)
        if i % 20 == 19:
            nk, nw = int(rng.integers(10, 25)), int(rng.integers(9, 13))
        o = rng.integers(-5, 6, (nk, ns * nw, ns * nw, 2)).tolist() if rng.random() < 0.5 else []
        ev.append(dict(k="proj", c=crystal(rng), k0=rng.integers(-8, 9, (nk, 3)).tolist(), bands0=rng.integers(-20, 40, (nk, nb)).tolist(), ef0=int(rng.integers(-9, 20)), ne0=int(rng.integers(1, 40)),
                       p0=rng.integers(-9, 10, (nk, ns, nw, nb, 2)).tolist(), o0=o, _file=bool(rng.random() < 0.3)))
    c.evs("TraceQE", proj, ev)
    ev = []
    for i in range(c.n(90, 900)):
        cr = crystal(rng)
        kind = ["dos", "bandx_raw", "bandx", "epsilon", "pp", "spilling"][i % 6]
        n, nb = int(rng.integers(2, 8)), int(rng.integers(1, 8))
        x = {}
        if kind == "dos":
            want = [rng.integers(-90, 99, (n, 3)).tolist(), int(rng.integers(-90, 99))]
        elif kind == "bandx_raw":
            want = [rng.integers(-8, 9, (n, 3)).tolist(), rng.integers(-90, 99, (n, nb)).tolist()]
        elif kind == "bandx":
            want = [np.cumsum(rng.integers(0, 9, n)).tolist(), rng.integers(-90, 99, (n + 1, 2)).tolist()]
        elif kind == "epsilon":
            want = [np.arange(n).tolist(), rng.integers(-90, 99, (n, 3)).tolist(), rng.integers(-90, 99, (n, 3)).tolist()]
        elif kind == "pp":
            z = {t: int(rng.integers(1, 30)) for t in cr["types"]}
            cut = {t: int(rng.integers(20, 90)) for t in cr["types"]}
            want = [sum(z[t] for t in cr["types"]), max(cut.values())]
            x = dict(_z=z, _cut=cut)
        else:
            orb = []
            names = []
            for a, t in enumerate(cr["types"]):
                o = [["s "]] + [["p ", "pz", "px", "py"]] * int(rng.integers(2)) + [["d ", "dz2", "dxz", "dyz", "dx2-y2", "dxy"]] * int(rng.integers(2))
                orb.append(o)
                names += [f"{a + 1}{t}_{y.strip()}" for grp in o for y in grp if y.strip() not in "pdf"]
            want = [names, int(rng.integers(0, 8))]
            x = dict(_orb=orb)
        ev.append(dict(k="table", c=cr, kind=kind, want=want, **x))
    c.evs("TraceQE", table, ev)
    # lattices
    CELL = dict(sc="P", fcc="F", bcc="I", hexagonal="P", triclinic="P", monoclinic="P", monoclinic_base_centered="C", orthorhombic="P", orthorhombic_base_centered="C", orthorhombic_body_centered="I",
                orthorhombic_face_centered="F", tetragonal="P", tetragonal_body_centered="I", rhombohedral="P")
    ev = []
    names = list(CELL)
    for i in range(c.n(180, 2000)):
        fn = names[i % len(names)] if i < 80 else str(rng.choice(["triclinic", "monoclinic", "rhombohedral", "monoclinic_base_centered"]))
        a, b, cc = [int(x) for x in rng.integers(1, 9, 3)]
        al, be, ga = [int(x) for x in rng.integers(-8, 10, 3)]
        if fn in ("sc", "fcc", "bcc"):
            b = cc = a
        if fn in ("hexagonal", "tetragonal", "tetragonal_body_centered", "rhombohedral"):
            b = a
        if fn == "rhombohedral":
            cc = a
            be = ga = al
        elif fn.startswith("monoclinic"):
            al = ga = 0
        elif fn == "hexagonal":
            al, be, ga = 0, 0, -5
        elif fn != "triclinic":
            al = be = ga = 0
        checked = fn not in ("sc", "fcc", "bcc", "hexagonal")
        bad, which = "", int(rng.integers(3)) if fn == "triclinic" else 1 if fn.startswith("mono") else 0
        if checked and rng.random() < 0.15:
            z = int(rng.integers(0, 3))
            v = int(rng.choice([0, -2]))
            if fn.startswith("tetra"):
                a, b, cc = (v, v, cc) if z else (a, b, v)
            elif fn == "rhombohedral":
                a = b = cc = v
            else:
                a, b, cc = [v if j == z else x for j, x in enumerate((a, b, cc))]
        elif fn in ("triclinic", "monoclinic", "monoclinic_base_centered", "rhombohedral") and rng.random() < 0.15:
            bad = str(rng.choice(["neg", "pi", "big"]))
        if 1000 + 2 * al * be * ga - 10 * (al**2 + be**2 + ga**2) == 0:
            continue
        ev.append(dict(k="lattice", lat=fn, cell=CELL[fn], a=a, b=b, cc=cc, al=al, be=be, ga=ga, bad=bool(bad), _bad=bad, _which=which, _cell=CELL[fn]))
    c.evs("TraceQE", lattice, ev)
    ev = []
    for i in range(c.n(60, 600)):
        cr = crystal(rng, ALL)
        ev.append(dict(k="density", A=cr["A"], types=cr["types"], target=int(rng.integers(500, 20000)), unit=cr["unit"], _int=bool(cr["unit"] == "angstrom" and rng.random() < 0.25)))
    c.evs("TraceQE", density, ev)
    ev = []
    for i in range(c.n(40, 400)):
        n = int(rng.integers(1, 9))
        ev.append(dict(k="orbitals", amp=rng.permutation(11)[:n].tolist(), names=[f"{j}Fe_{'spd'[j % 3]}" for j in range(n)], thr=int(rng.choice([5, 5, 1, 16, 30]))))
    for e in ev:
        if e["thr"] == 5:
            continue
    c.evs("TraceQE", orbitals, ev)
    ev = []
    for i in range(c.n(30, 300)):
        n = int(rng.integers(0, 7))
        ev.append(dict(k="kpoints", o=str(rng.choice(["crystal", "tpiba", "crystal_b", "tpiba_b", "tpiba_c", "crystal_c"])), rows=[[n]] + [[int(x) for x in rng.integers(-16, 17, 3)] + [8] for _ in range(n)]))
        ev.append(dict(k="kpoints", o="automatic", rows=[[int(x) for x in rng.integers(1, 20, 3)] + [0, 0, 0]]))
    c.evs("TraceQE", kpoints_event, ev)
    ev = []
    GOOD = ["Cu.pbesol-dn-kjpaw_psl.1.0.0.UPF", "O.pz-n-rrkjus_psl.0.1.UPF", "Si.rel-pbe-n.UPF", "Fe_ONCV_PBE-1.2.upf", "Au.upf"]
    EVIL = ["Cu.UPF;touch x", "O.UPF && true", "$(touch y).UPF", "a b.UPF", "x|y", ";", "Si.UPF`id`", "Fe.UPF\nid"]
    for i in range(c.n(30, 300)):
        g = [str(x) for x in rng.permutation(GOOD)[:int(rng.integers(0, 5))]]
        v = [str(x) for x in rng.permutation(EVIL)[:int(rng.integers(0, 3))]]
        f = [str(x) for x in rng.permutation(g + v)]
        ev.append(dict(k="prepare", files=f, have=[x for x in g if rng.random() < 0.3], evil=v, _none=["Zn"] if rng.random() < 0.2 else [], _global=bool(rng.random() < 0.3)))
    c.evs("TraceQE", prepare, ev)
    ev = []
    for i in range(c.n(40, 400)):
        cr = crystal(rng)
        plot = bool(rng.random() < 0.4)
        n = int(rng.choice([1, 2]))
        sym = bool(not plot and rng.random() < 0.3)
        grid = n if sym or rng.random() < 0.3 else None
        k0 = rng.permutation([[x, y, z] for x in range(0, 8, 8 // n) for y in range(0, 8, 8 // n) for z in range(0, 8, 8 // n)]).tolist()
        nb = int(rng.integers(1, 9))
        path, p0 = [], []
        norm = np.eye(3, dtype=int)
        if plot:
            norm = rng.integers(-1, 2, (3, 3))
            for j in range(int(rng.integers(2, 6))):
                while True:
                    p = [int(x) for x in rng.integers(-8, 9, 3)]
                    if not path or p != path[-1][1]:
                        break
                path.append([["A", "B", "X", "M", "L"][j], p])
            pts = [[nm, (norm.T @ np.array(p)).tolist()] for nm, p in path]
            p0 = [[a, b] for a, b in zip(pts, pts[1:])]
        ev.append(dict(k="win", c=cr, k0=sorted(k0) if grid else k0, nbnd=nb, nwann=nb if rng.random() < 0.5 else int(rng.integers(1, nb + 1)), win0=sorted(rng.integers(-90, 90, 2).tolist()), froz0=sorted(rng.integers(-90, 90, 2).tolist()),
                       sym=sym, tb=bool(rng.random() < 0.5), excl=str(rng.choice(["", "1-4"])), plot=plot, path0=p0, grid=f"{n} {n} {n}", _grid=grid, _path=path, _norm=norm.tolist(), _sorted=grid is not None))
    c.evs("TraceQE", win, ev)
    ev = []
    for i in range(c.n(20, 200)):
        cr = crystal(rng)
        if rng.random() < 0.5:
            cr["basis"] = [[int(x) for x in b] for b in rng.integers(0, 8, (len(cr["types"]), 3)) * rng.integers(0, 2, (len(cr["types"]), 3))]
        ev.append(dict(k="crystalplot", c=cr, repeat=int(rng.choice([1, 1, 2, 3]))))
    c.evs("TraceQE", crystal_plot, ev)
    ev = []
    for i in range(c.n(40, 400)):
        kind = ["bandx", "bandx", "x", "none", "wannier"][i % 5]
        n, nb = int(rng.integers(2, 7)), int(rng.integers(1, 5))
        if kind in ("x", "none"):
            z = np.hstack([np.cumsum(rng.integers(0, 5, (n, 1)), axis=0), rng.integers(-90, 90, (n, nb))])
        else:
            x = np.cumsum(rng.integers(0, 5, n))
            if x[-1] == x[0]:
                x[-1] += 3
            z = np.array([[a, int(rng.integers(-90, 90))] for _ in range(nb) for a in x])
            z[0, 1], z[-1, 1] = -91, 95
        ev.append(dict(k="bandsplot", c=crystal(rng), kind=kind, z=z.tolist(), xs=sorted(rng.integers(0, 20, int(rng.integers(1, 4))).tolist()), ef0=int(rng.integers(-80, 80))))
    c.evs("TraceQE", bands_plot, ev)
    c.validate("TraceQE", min_events=600)
    c.coverage["rational_points_explored"] = "lattices in quarters, positions and k points in eighths, translations in twelfths; every element up to uranium"
    c.assumptions.append("the file formats are those of Quantum Espresso 7.3 (the xml of the example of the repository, binary files as in its documentation); no program of Quantum Espresso is run")


if __name__ == "__main__":
    main("P20", body)
