#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run after editing; both outputs are committed)."""
import json, os, sys
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
Q='CPPQEDcore/quantumdata/'; O='CPPQEDcore/quantumoperator/'; S='CPPQEDcore/structure/'; F='CPPQEDelements/frees/'; I='CPPQEDelements/interactions/'; T='CPPQEDcore/quantumtrajectory/'; U='CPPQEDutils/'; K='CPPQEDcore/composites/'
P=[]
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=state
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Partial traces and subsystem slices agree with the tensor-product definition",
  "For every multi-subsystem state, pure or mixed, and every ordered choice of retained subsystems, iterating over the slices visits every configuration of the other subsystems exactly once, with the retained axes in the requested order, and the partial trace is the sum over those slices. Reductions of a pure state equal those of its dyad, and the flattened diagonal and off-diagonal data of a density operator list every matrix element exactly once.",
  ["inputs","configurations"],"all amplitudes; all choices and orders of retained subsystems for systems of up to four subsystems of unequal dimensions",
  "index permutations are data-independent but combinatorial: a test fixes one choice of axes, equal dimensions or a random state; a transposed pair of axes or a dropped configuration shows only for particular choices",
  [Q+"LazyDensityOperator.h",Q+"StateVector.h",Q+"DensityOperator.h",U+"SliceIterator.h","CPPQEDutils/MultiIndexIterator.h",U+"TMP_Tools.h"],
  [("partialTrace",Q+"LazyDensityOperator.h"),("slice iteration",U+"SliceIterator.h"),("deflate",Q+"LazyDensityOperator.h")])
p("C02","State vectors and density operators obey their linear algebra",
  "For state vectors and density operators of any shape: norms, traces, renormalisation, inner products, direct products, dyads, linear combinations, matrix elements and conversions equal their textbook definitions, copies are independent of their source, and a density operator made from a state vector is the dyad of that vector.",
  ["inputs"],"all amplitudes and coefficients; ranks one to three, unequal dimensions",
  "tests compare a few numbers for one state; an error in one index, one conjugation or in aliasing between copies is invisible for real, symmetric or freshly made states",
  [Q+"StateVector.h",Q+"DensityOperator.h",Q+"ArrayBase.h",Q+"DimensionsBookkeeper.h",U+"ComplexArrayExtensions.h",Q+"LazyDensityOperator.h"],
  [("norm, renorm, direct and dyadic product",Q+"StateVector.h"),("density operator arithmetic",Q+"DensityOperator.h"),("Hermitian conjugation of multi-matrices",U+"ComplexArrayExtensions.h")])
p("C03","Structured operators act as the matrices they stand for, in any picture",
  "Tridiagonal operators and elementary transition operators, and anything composed of them by sums, scalar multiples, Hermitian conjugation and direct products, act on states as the corresponding matrix, leaving the operand intact. Operators furnished with level frequencies and propagated to a time act as the matrix in the interaction picture at that time, also within sums and products, also when only some factors carry frequencies, and irrespective of the history of propagation times; incompatible structures or frequencies are refused.",
  ["inputs","histories","configurations"],"all entries, frequencies and times; every combination of present and absent diagonals; ranks up to three",
  "tests use particular operators such as a and n; whether frequencies follow through products and sums shows only for composites with missing diagonals, and only at non-zero times",
  [O+"Tridiagonal.h",O+"Tridiagonal.tcc",O+"Tridiagonal.cc",O+"Sigma.h",O+"TridiagonalHamiltonian.h",O+"applyImpl"],
  [("operator algebra",O+"Tridiagonal.tcc"),("application to state vectors",O+"applyImpl"),("propagation of frequencies",O+"Tridiagonal.tcc"),("Hamiltonian as list of operators",O+"TridiagonalHamiltonian.h")])
p("C04","Dissipation of the free elements is of Lindblad form and mutually consistent",
  "For every lossy, thermal or dephasing mode, qubit, two-level atom, spin or multi-level system and all parameters and states, the jump operators, their rates, the superoperators and the non-Hermitian part of the no-jump evolution describe one and the same Lindblad equation: rates are the norm of the jumped state, superoperators are the jump sandwich, and the norm lost without jump equals the total jump rate.",
  ["inputs","configurations"],"all parameters and states; every picture; modes with up to 4 (quick) levels, spins up to 2S=3",
  "the consistency is an identity among four pieces of code in all parameters; tests run particular trajectories where an error in a rarely used channel or off-diagonal element stays within statistical error",
  [F+"Mode_.h",F+"Mode.cc",F+"Qbit.cc",F+"Spin.cc",F+"MultiLevel.h",S+"ElementLiouvillean.h"],
  [("jump operators and rates",S+"ElementLiouvillean.h"),("mode channels",F+"Mode.cc"),("qubit and multi-level channels",F+"Qbit.cc")])
p("C05","Every picture of a free element generates the same physical dynamics",
  "For every free element (mode, qubit, two-level atom, spin, particle, multi-level system, matrix Hamiltonian) and all parameters, the exact propagation followed by the interaction-picture Hamiltonian reproduces the documented Hamiltonian and decay generator, whichever picture is chosen, so that the Schrödinger-picture dynamics does not depend on the picture. The exact propagation composes over consecutive intervals, is the identity for zero time, and does not depend on which intervals were propagated before.",
  ["inputs","configurations","histories"],"all parameters, states, times and sequences of propagation intervals; dimensions up to 4",
  "agreement across pictures is an identity in all parameters and times; tests run each picture for one parameter set where a wrongly rotating or missing term may have zero weight",
  [F+"Mode.cc",F+"Qbit.cc",F+"PumpedTwoLevelAtom.cc",F+"Spin.cc",F+"Particle.cc",F+"MultiLevel.h",F+"TimeIndependentMatrixHamiltonian.cc",S+"FreeExact.h",S+"Hamiltonian.h",S+"TimeDependence.h"],
  [("exact part with cached propagator",S+"FreeExact.h"),("element Hamiltonians",F+"Mode.cc"),("time dependence dispatch",S+"Hamiltonian.h")])
exec(open('tools/props_more.py').read()) if os.path.exists('tools/props_more.py') else None

json_lines=[json.dumps(x,ensure_ascii=False) for x in P]
open('properties.jsonl','w').write('\n'.join(json_lines)+'\n')
checks=[]; na=[]
for x in P:
    i=x['id']; spec='checks/%s/spec.json'%i
    if os.path.exists(spec):
        sp=json.load(open(spec))
        c={"property":i,"quick_cmd":"./check %s quick"%i,"thorough_cmd":"./check %s thorough"%i,
           "technique":"symbolic execution of the compiled real code (LLVM IR) over symbolic reals, SMT-discharged assertions, native replay of counterexamples",
           "level":"model_checking","level_note":sp.get("level_note","; ".join(sp.get("bounds",[])) or "bounded symbolic")}
        checks.append(c)
    else: na.append({"property":i,"reason":NA[i]})
json.dump({"version":1,"setup_cmd":"./check --setup","checks":checks,"not_applicable":na},open('MANIFEST.json','w'),indent=1,ensure_ascii=False)
open('MANIFEST.json','a').write('\n')
try:
    import jsonschema
    jsonschema.validate(json.load(open('MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
    sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for l in json_lines: jsonschema.validate(json.loads(l),sch)
    print('valid',len(P))
except ImportError: print('no jsonschema')
