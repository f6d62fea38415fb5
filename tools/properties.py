"""Writes properties.jsonl and MANIFEST.json (run after editing)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
S = "src/tad_dftd4/"
P = []


def prop(i, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=i, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[S + f for f in files], mechanism=[dict(name=a, where=b) for a, b in mech], **({"observe_at": observe} if observe else {}))))


prop("C01", "Two-body energy is the damped sum over all pairs within the cutoff",
     "For any geometry, C6 coefficients, radii, damping function and parameters, the two-body energy of an atom is minus one half of the sum over the other atoms within the two-body cutoff of s6 C6 f6 + s8 C8 f8 (+ s10 C10 f10), with C8 = 3 C6 times the r4/r2 expectation values of both atoms and C10 = 49/40 C8^2/C6; padding atoms and self pairs never count. "
     "The pair matrix, when requested, holds the energy of each pair (both triangles, zero diagonal), so that its rows sum to twice the atomic energies. A pair beyond the cutoff contributes exactly zero and one at or inside it contributes fully.",
     ["inputs", "configurations"], "all positions (distances >= 0.5 bohr), C6, r4r2, vdW radii, parameters and cutoffs; every damping function, with and without s10, single systems and padded batches up to 3x4 atoms",
     "The tests compare a few molecules with reference energies, essentially only for rational damping; no molecule has a pair near the cutoff and other damping functions never reach the sum.",
     ["dispersion/twobody.py", "damping/functions.py"], [("pair mask, cutoff mask, -0.5 factor", "dispersion/twobody.py dispersion2"), ("damped powers", "damping/functions.py")])

prop("C02", "Three-body energy is the Axilrod-Teller-Muto sum within the cutoff",
     "For any geometry, the three-body energy of an atom is one third of the sum over all triples it belongs to of s9 C9 (3 cosA cosB cosC + 1) / (rAB rBC rCA)^3 times the zero damping factor 1/(1 + 6 (sqrt[3](r0AB r0BC r0CA / (rAB rBC rCA)))^alp), with each unordered triple of real atoms counted once. "
     "A triple contributes only if all three of its distances are within the three-body cutoff, and then fully. The approximate variant uses C9 = sqrt(|C6AB C6BC C6CA|), the exact variant the Casimir-Polder integral of the atomic polarizabilities.",
     ["inputs", "configurations"], "all positions, C9, radii, s9, alp, rs9 and cutoffs; 3 to 5 atoms, padded batches; approximate and exact C9, Becke-Johnson and vdW radii",
     "Tests compare ATM energies of a handful of molecules at the default cutoff of 40 bohr, inside which every triple lies; masks, permutations of a triple and partial cutoffs are not distinguished.",
     ["dispersion/threebody.py", "dispersion/d4.py", "dispersion/d3.py", "utils.py"], [("triple masks, triangle scaling, angular term", "dispersion/threebody.py get_atm_dispersion"), ("C9 variants", "dispersion/d4.py")])

prop("C03", "Damping functions have their published form and stay within bounds",
     "Rational (Becke-Johnson), zero, modified zero and optimised-power damping return the published closed form of the damped inverse power for every distance, radius, order they support and parameter value, including parameters that are Python numbers or zero. "
     "The damped inverse power is never negative and never exceeds the undamped one. A missing mandatory parameter raises an error, an unsupported order raises an error, and a switched-off order (its scaling not given) contributes zero. Asked for the damping factor alone (only_damping), every function returns the factor without the inverse power, between zero and one. Damping functions written by users are held to the mandatory parameters they declare.",
     ["inputs", "configurations"], "all distances, radii, parameters; each function x each order x each way to pass or omit parameters",
     "Tests exercise rational damping inside energies and check the other functions for type errors only; the closed form is never compared over the parameter range.",
     ["damping/functions.py"], [("damping classes", "damping/functions.py")])

prop("C04", "D4 reference weights are normalised Gaussians times charge scaling",
     "For every element, coordination number and partial charge, the weight of each reference system of an atom is the charge-scaling factor times its Gaussian weight divided by the sum of the Gaussian weights of that atom; references that do not exist and padding atoms have weight zero. "
     "Without charge scaling the weights of an atom are non-negative and sum to one. If all Gaussians underflow, the weight goes to the reference with the highest coordination number, and weights are never NaN or infinite.",
     ["inputs", "configurations"], "all CN and q in the stated ranges (including underflow), elements 1-103, both reference charge sets, changed ga / gc / wf, batches with padding",
     "Tests compare weights of a few molecules at their own CN; the underflow branch, ionised atoms and most elements are not reached.",
     ["model/d4.py", "model/base.py", "reference/d4/params.py"], [("weight_references", "model/d4.py"), ("charge scaling", "model/base.py _zeta")])

prop("C05", "D4S weights and coefficients are pair resolved",
     "In the D4S model the weight of each reference system of atom n with respect to partner m is the D4 weight evaluated with the Gaussian width tabulated for the element pair (n, m), and the C6 coefficient of a pair combines the weights each atom has with respect to the other. "
     "Polarizabilities are averaged over real partners only. With one uniform width the model gives exactly the D4 weights and coefficients.",
     ["inputs", "configurations"], "all CN and q; elements 1-103; single systems and padded batches",
     "Tests compare D4S energies of few molecules; swapping the roles of the two atoms of a pair changes them only slightly and only for asymmetric widths.",
     ["model/d4s.py", "data/wfpair.py"], [("pairwise weights", "model/d4s.py weight_references"), ("pair widths", "data/wfpair.py")])

prop("C06", "Analytic weight derivatives equal the derivatives of the weights",
     "Whenever the model returns the derivative of the reference weights with respect to the partial charges or the coordination numbers, it is the exact derivative of the weights it returns, for every atom and reference, also for ionised atoms and where the Gaussian weights underflow. "
     "Requesting derivatives never changes the weights, both derivatives can be requested together in the documented order, and automatic differentiation of the weights gives the same values.",
     ["inputs", "configurations"], "all CN and q on both sides of the ionisation branch; elements 1-103; D4 and D4S",
     "Tests check the charge derivative numerically on a few molecules at neutral charges.",
     ["model/d4.py", "model/d4s.py", "model/base.py"], [("with_dgwdq / with_dgwdcn", "model/d4.py, model/d4s.py"), ("_dzeta", "model/base.py")])

prop("C07", "C6 and polarizabilities follow from the reference data by Casimir-Polder",
     "For every element and any reference weights, polarizabilities are the weighted sums of the published (corrected) reference polarizabilities and C6 is 3/pi times the 23-point trapezoid integral of the product of the weighted polarizabilities over imaginary frequency. "
     "C6 is symmetric in the two atoms, positive for positive weights, and zero for padding; exact C9 is the same quadrature of three polarizabilities.",
     ["inputs", "configurations"], "all weights; all elements 1-103 against partners of every period; both reference charge sets; single systems and batches",
     "Tests look at some molecules; a changed table entry of an element no test molecule contains, or a quadrature weight, is not seen.",
     ["model/base.py", "model/d4.py", "model/d4s.py", "utils.py", "reference/d4/params.py", "data/zeff.py", "data/hardness.py"], [("reference C6 / polarizabilities", "model/base.py"), ("trapzd", "utils.py")])

prop("C08", "Results do not depend on the order of atoms or of batch members",
     "Permuting the atoms of a system permutes the atom-resolved energies, coordination numbers, charges and polarizabilities and both axes of C6 in the same way; the total is unchanged. Permuting the systems of a batch permutes the results.",
     ["inputs", "configurations"], "all geometries, charges, parameters; transpositions and cycles of 2-4 atoms (generators of all permutations), all entry points, both models, padded batches",
     "Tests evaluate each molecule in one order.",
     ["disp.py", "dispersion/base.py", "dispersion/threebody.py", "dispersion/twobody.py", "model/d4s.py"], [("symmetric sums over pairs and triples", "dispersion/")])

prop("C09", "Batching and padding never change a system's result",
     "Evaluating a system inside a batch, with any amount of padding at any position, any padding coordinates and any other systems in the batch, gives the same atom-resolved energies and properties as evaluating it alone, and padding entries are exactly zero. This holds for one- and multi-dimensional batches, a batch of one and rows made only of padding.",
     ["inputs", "configurations"], "all geometries, charges, total charges, parameters; padding patterns and batch shapes listed in the evidence; all entry points, damping functions and models",
     "Tests batch two molecules with zero padding at the end.",
     ["disp.py", "dispersion/base.py", "dispersion/twobody.py", "dispersion/threebody.py", "model/base.py", "model/d4.py", "model/d4s.py"], [("real-pair masks", "dispersion/, tad_mctc.batch"), ("element 0 rows of the tables", "reference/, data/")])

prop("C10", "Results are invariant under rigid motion of a system",
     "Translating, rotating or reflecting a system (each member of a batch independently) leaves energies, coordination numbers, charges, C6 and polarizabilities unchanged.",
     ["inputs", "configurations"], "all geometries, translation vectors and angles; rotations about each axis (generating all), reflections, inversion; all entry points and models",
     "Tests evaluate fixed geometries.",
     ["disp.py", "dispersion/base.py", "dispersion/twobody.py", "dispersion/threebody.py"], [("dependence on distances only", "dispersion/")])

prop("C11", "Autograd returns the exact derivative of the energy",
     "Back-propagating any energy gives its exact derivative with respect to positions, partial charges, total charge, damping parameters, radii and expectation values, including the parts that act through coordination numbers and charges; second derivatives are consistent too. "
     "Gradients are finite wherever the energy is smooth, also with padding, coincident padding, single precision, cut-off pairs and underflowing weights, and padding atoms receive zero gradient.",
     ["inputs", "configurations"], "all geometries and parameters; all damping functions, models, ATM variants, padded batches",
     "Gradient tests check few molecules in double precision with respect to positions and some parameters of rational damping; a detached tensor or a NaN from a masked branch elsewhere stays unseen.",
     ["dispersion/twobody.py", "dispersion/threebody.py", "damping/functions.py", "model/base.py", "model/d4.py", "model/d4s.py", "disp.py"], [("differentiable masks (storch)", "dispersion/, damping/"), ("no detach / copy of parameters", "disp.py, dispersion/")])

prop("C12", "Each cutoff acts on its own term and makes the energy local",
     "The two-body cutoff affects exactly the two-body energy, the three-body cutoff exactly the three-body energy and the charge cutoff exactly the charges, whether given as int, float or tensor, with defaults of 60, 40 and 25 bohr. Fragments further apart than all cutoffs have independent energies for given charges and coordination numbers.",
     ["inputs", "configurations"], "all cutoff values and geometries; all entry points",
     "Tests use default cutoffs on molecules smaller than all of them.",
     ["cutoff.py", "defaults.py", "disp.py", "dispersion/base.py", "dispersion/twobody.py", "dispersion/threebody.py"], [("Cutoff", "cutoff.py"), ("propagation", "dispersion/base.py, disp.py")])

prop("C13", "Functional parameters are the published ones, looked up faithfully",
     "For every supported functional and variant, the parameter lookup returns exactly the published damping parameters, regardless of letter case, with the documented default variant and optional literature reference; unknown functionals, methods or variants raise an error. A returned dictionary belongs to the caller: changing it affects no later lookup.",
     ["inputs", "configurations", "histories"], "all functionals and variants of the shipped tables, all letter cases, sequences of lookups with caller mutations",
     "Tests look up a few functionals in lower case.",
     ["damping/parameters/loader.py", "damping/parameters/d4.toml", "damping/parameters/d3.toml"], [("get_params", "damping/parameters/loader.py")])

prop("C14", "Energies are linear in the scaling parameters, with documented defaults",
     "The energy is linear and separable in s6, s8, s9 and s10 for every geometry; setting one to zero removes exactly its term. Omitting s6, s9 or alp is the same as passing the documented default, parameters a method does not use have no effect, and Python numbers and zero-dimensional tensors are interchangeable.",
     ["inputs", "configurations"], "all geometries and parameter values; all entry points, damping functions, models",
     "Tests use fixed parameter sets.",
     ["disp.py", "dispersion/base.py", "dispersion/twobody.py", "dispersion/threebody.py", "dispersion/d4.py", "dispersion/d3.py", "defaults.py"], [("param.get defaults", "dispersion/")])

prop("C15", "Inconsistent input is refused, never silently broadcast",
     "Positions, partial charges, covalent radii, expectation values or pairwise radii whose shape does not fit the atomic numbers raise ValueError at every entry point, whatever their content, even where the shapes could be broadcast. Unknown models and reference charges raise, partial charges given to a method in which no term uses them raise, and correctly shaped input is accepted and used.",
     ["inputs", "configurations"], "all shapes of up to three dimensions of extent 1-3 other than the correct one, all contents; all entry points",
     "Tests try one or two wrong shapes.",
     ["disp.py", "dispersion/base.py", "dispersion/twobody.py", "dispersion/threebody.py", "model/"], [("shape checks", "dispersion/base.py calculate, dispersion/twobody.py dispersion2")])

prop("C16", "Precision follows the positions, independent of torch's default dtype",
     "Energies and properties have the dtype of the positions for any dtype of charge, integer type of the atomic numbers or form of parameters, and are the same under any process-wide default dtype. In double precision no part of the computation passes through a narrower type or rounded constants, also after earlier single-precision calls.",
     ["inputs", "configurations", "histories"], "all geometries, charges, parameters; dtype combinations and call histories listed in the evidence",
     "Tests compare with references at tolerances that hide single-precision constants (1e-7 of the energy) and run under one default dtype.",
     ["disp.py", "dispersion/base.py", "dispersion/twobody.py", "dispersion/threebody.py", "damping/functions.py", "model/base.py", "model/d4.py", "model/d4s.py", "cutoff.py"], [("dd propagation", "everywhere tensors are created")])

prop("C17", "Evaluations are pure: inputs untouched, no state between calls",
     "No evaluation modifies its inputs (tensors, parameter dictionaries, cutoffs, models) or process-wide torch settings, and the result depends only on the current contents of the inputs: not on earlier or failed calls, on which object is reused, on inputs being overwritten in place between calls, on what the caller does with earlier results, on grad mode, random seed or memory layout.",
     ["histories", "inputs", "configurations"], "all geometries, charges, parameters; call histories up to 8 steps over two systems; all entry points and models",
     "Tests make each call once with fresh contiguous tensors.",
     ["disp.py", "dispersion/base.py", "dispersion/twobody.py", "dispersion/threebody.py", "dispersion/d4.py", "dispersion/d3.py", "model/base.py", "model/d4.py", "model/d4s.py", "damping/parameters/loader.py"], [("functional style, per-instance term lists", "dispersion/base.py")])

prop("C18", "Every entry point evaluates the published DFT-D4 energy",
     "The convenience function, the composed method classes and hand-composed methods return, for every atom, the published DFT-D4 (or D4S) energy: two-body energy with C6(CN, q) plus three-body energy with C9(CN) at zero charge and Becke-Johnson radii, with electronegativity-equilibration charges from the total charge unless partial charges are given, and user-supplied radii, expectation values, coordination-number functions, models and model settings taking the place of the defaults. All entry points agree with each other.",
     ["inputs", "configurations"], "all geometries, charges, coordination numbers, parameters, overrides; elements of every period, D4 and D4S, padded and 2-D batches",
     "Tests compare some molecules at published parameters; errors confined to overrides, charge-dependent ATM or non-default settings stay unseen.",
     ["disp.py", "dispersion/base.py", "dispersion/d4.py", "dispersion/twobody.py", "dispersion/threebody.py", "model/d4.py", "model/d4s.py", "model/base.py"], [("dftd4", "disp.py"), ("Disp.calculate", "dispersion/base.py"), ("TERMS", "dispersion/d4.py")])

prop("C19", "A method is the sum of its registered terms",
     "The energy of a composed method is the sum of its currently registered terms, each evaluated once, after any history of registering and removing terms on that object only; newly created methods always start with their standard terms. Each term receives the coordination numbers of the configured function, the radii, cutoffs, model and parameters, and charges exactly as given or computed; terms not marked charge dependent are evaluated at zero charge. DFT-D3-type methods give their published sum.",
     ["histories", "inputs", "configurations"], "all term energies, geometries, charges; histories of register / remove up to 6 steps; built-in and user-written terms",
     "Tests build the standard methods only.",
     ["dispersion/base.py", "dispersion/d4.py", "dispersion/d3.py", "dispersion/twobody.py", "disp.py"], [("register / deregister / calculate", "dispersion/base.py"), ("TERMS", "dispersion/d4.py, dispersion/d3.py")])

prop("C20", "Property calculation returns the ingredients of the energy",
     "The property function returns the coordination numbers, the charges for the given total charge (zero by default) and charge cutoff, the C6 coefficients and static polarizabilities at those values, per atom and per pair, for single systems and padded batches, identical to what the energy is built from.",
     ["inputs", "configurations"], "all geometries and total charges; forms of charge and cutoff; single systems, padded and 2-D batches; elements of every period",
     "Tests check one or two molecules with zero charge.",
     ["disp.py", "model/d4.py", "model/base.py"], [("get_properties", "disp.py")])

prop("C21", "Converted and copied objects behave like the original",
     "A model, method, cutoff or term converted to another precision with .type() or .to() behaves like one created in that precision: same settings, integer atomic numbers, same weights, coefficients and energies up to the rounding of its stored numbers. A copy (copy, deepcopy, pickle) gives the results of the original. "
     "Conversion and deep copies leave the original unchanged, and terms registered on or removed from one of the two do not affect the other.",
     ["inputs", "configurations", "histories"], "all coordination numbers, charges, geometries and parameters; each way to convert or copy x both precisions x D4 / D4S x reference charges, ga, gc, wf x composed methods with model names and instances; single systems and padded batches",
     "Tests convert a model and look at its dtype only; the converted object is never evaluated.",
     ["model/base.py", "dispersion/base.py", "cutoff.py"], [("__slots__ and conversion", "model/base.py, dispersion/base.py, cutoff.py")])

TECH = "symbolic execution of the real code (torch dispatch) to terms, decided by z3; counterexamples replayed on the real code"
NOTE = "Holds for every value of the symbolic inputs within the stated ranges, for each listed configuration (elements, shapes, options). Real arithmetic for IEEE arithmetic; torch operator semantics of symt/symtensor.py; EEQ solver stubbed by its documented dependence. See DESIGN.md."
NOTES = {
    "C06": " One known finding (sign of the CN derivative).",
    "C18": " One known finding (covalent radii have no effect).",
    "C12": " One known finding (coordination-number cutoff has no effect).",
}

if __name__ == "__main__":
    root = os.path.dirname(HERE)
    with open(os.path.join(root, "properties.jsonl"), "w") as fp:
        for p in P:
            fp.write(json.dumps(p) + "\n")
    man = dict(
        version=1,
        setup_cmd="true",
        checks=[
            dict(
                property=p["id"],
                quick_cmd=f"/opt/venv/bin/python run.py --property {p['id']} --tier quick",
                thorough_cmd=f"/opt/venv/bin/python run.py --property {p['id']} --tier thorough",
                technique=TECH,
                level="other",
                level_note=NOTE + NOTES.get(p["id"], ""),
            )
            for p in P
        ],
        not_applicable=[],
    )
    with open(os.path.join(root, "MANIFEST.json"), "w") as fp:
        json.dump(man, fp, indent=1)
        fp.write("\n")
