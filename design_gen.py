#!/usr/bin/env python3
"""write DESIGN.md from design_head.md, the per-property texts below and props.py"""
import os,json
from props import PROPS,NA
V=os.path.dirname(os.path.abspath(__file__))
CAUGHT={'s17a':'P17, P16','s18a':'P18, P19','s19a':'P19, P18'} # seeded id -> checks, default its own property
HOW={
'P01':("Machine::propagate runs over a beamline of recording elements; start (64 bit) and count (32 bit) are symbolic, so is the index one element redirects to.","a ten-line walk over the requested indices: number of visits, order, direction and next index seen by each element, one observer call per visit, final next index."),
'P02':("the same symbolic beam goes through (a) a beamline in one call and in up to three successive calls with copies in between, (b) an element and its two halves at a symbolic cut, (c) a beamline with and without an inserted no-op.","the two runs of the real code against each other (composition law); no model of the maps."),
'P03':("each element kind propagates a fully symbolic centroid and covariance; strengths, lengths, energies symbolic where the map is not inverted.","T*m0 and T*m1*T^t computed in the harness from the map the state reports, symmetry and the constant row."),
'P04':("states from a configuration, a source, and after one and two passes of every element kind, with symbolic charges, centroids and covariances.","the definition of the charge-weighted mean and covariance, written out in the harness."),
'P05':("two beams are sent one after the other through the same machine; the second result is compared with that of a fresh machine. For the cheap kinds both beams are completely symbolic, so every cache-key mistake is a satisfiable path.","the fresh machine (relational)."),
'P06':("each parameter of each kind is changed on its own through Machine::reconfigure, before or after use, and the machine is compared with one built from the new configuration; refused changes are compared with an untouched machine.","the newly built machine (relational)."),
'P07':("every field of the source and of the overwritten state is symbolic over a wide range including zero; clone and assign of all three state types.","a field-by-field shadow copy kept by the harness."),
'P08':("every sequence of three (four) operations over three configurations sharing storage, with symbolic values.","a reference model: a stack of plain maps per configuration."),
'P09':("every combination of inner/outer definition type, requested type and way of nesting (up to three scopes), symbolic values.","the lookup rules as a case table in the harness."),
'P10':("all parameters and indices of states with 1..4 charge states before and after a stripper changes the number.","the addresses of the state's own members; written values must be used by the next propagation."),
'P11':("the real flex scanner and bison parser run on generated expression texts whose variables have symbolic values (passed as caller-given variables).","the same expression evaluated by the C++ compiler's own arithmetic in the harness, with its own precedence rules."),
'P12':("the real scanner and parser run on generated beamline definitions with symbolic repetition numbers.","list concatenation, reversal and repetition in the harness."),
'P14':("lists of symbolic numbers go through readvec; text tables in all layouts and with all single defects go through read; cavity data files with every length of every list are loaded and used. All memory accesses of the interpreted code are checked.","the table the text was generated from; refusal exactly when a defect was put in."),
'P15':("all assignments of three names and two types to beamlines of up to three (four) elements, symbolic nth, one reconfiguration under another name.","a linear scan in the harness."),
'P16':("lengths, strengths, energies and charge symbolic including zero and both signs; the reported map is compared entry by entry.","closed-form textbook matrices written from the documentation, in the harness."),
'P17':("the element with symbolic misalignment against the aligned element conjugated with the frame transformation.","the rigid transformation about the element's centre built in the harness from elementary rotations; the aligned element's own map."),
'P18':("symbolic moments, phases and position go forward, backward, forward and backward again over single elements and chains.","the state before (relational), tolerance 1e-6 relative to the beam's scale because the code inverts matrices numerically."),
'P19':("symbolic particle quantities through every element kind in both directions, also with derived quantities left stale before.","position and phase bookkeeping and the kinematic formulas in the harness."),
'P20':("symbolic charges, energies, centroids, covariances and stripper parameters.","recombination formula, energy loss, growth of three variances with unchanged correlation coefficients, Baron's formula, in the harness."),
'P21':("a small data file is written for each case and loaded by the real code; scaling factor and phase, or energies, or phases, or charges symbolic.","drift-kick sum, fit polynomials and product of thin-lens maps in the file's order, in the harness."),
'P22':("every number of the description symbolic, every combination of optional entries; three ways to build the beam; eight kinds of invalid description.","the documented assignment of variables to fields."),
'P23':("symbolic limits, all indices; address arithmetic with symbolic strides.","counting in the harness."),
'P25':("pairs of element kinds in both linear simulations with symbolic strengths, lengths, matrices and initial values.","closed-form matrices in the harness; the two simulations against each other."),
'P26':("bends with symbolic length, angle, gradient, energy, charge; thick sextupole with symbolic offset.","closed-form solutions of the equations of motion, including the limits of vanishing focusing, in the harness."),
'P32':("small tables are written for each type and multipole and loaded by the real code; scaling factor and phase, beam phases, or charges symbolic.","drift-kick sum, transit time integrals, product of the table's maps in the harness; the fit coefficients are transcribed (they were compared with the integrals over the shipped tables and agree)."),
'P28':("the file system calls are replaced by a stand-in in the harness: time stamps are symbolic, the content served and the moment of replacement are choices.","the content of the version present at the time of the request; for cavities a machine built anew from it."),
}
exec(open(V+'/design_more.py').read()) if os.path.exists(V+'/design_more.py') else None
out=[open(V+'/design_head.md').read().rstrip(),'','## Properties','']
for i,p in sorted(PROPS.items()):
    h=HOW[i]; out+=[f"### {i} {p['title']}","",f"- Anchored in: {', '.join(p['files'])}. Harness: {', '.join('harness/'+x for x in p['harness'])}.",f"- Made symbolic: {h[0]}",f"- Oracle: {h[1]}",f"- Bounds: {p['bounds']}.",f"- Outside: {p['outside']}.",f"- Beyond the tests: {p['why']}.",""]
out+=['## Not decided with this family','']
for i,p in sorted(NA.items()): out+=[f"- **{i} {p['title']}**: {p['reason']}"]
tail=open(V+'/design_tail.md').read().rstrip()
K=json.load(open(V+'/known-findings.json'))['findings']
fx='\n'.join(f"| {k['property']} | {k['commit']} | {k['what'].split(k['commit']+' ',1)[1]} |" for k in K if k['status']=='fixed')
kn='\n'.join(f"- {k['property']}, assertion \"{k['assertion']}\": {k['what']}" for k in K if k['status']=='known')
sd='| id | property | what it breaks | caught by |\n|---|---|---|---|\n'
for d in sorted(os.listdir(V+'/seeded')):
    m=json.load(open(f'{V}/seeded/{d}/meta.json')); sd+=f"| {d} | {m['property']} | {m['what_it_breaks']} (needs: {m['needs']}) | {CAUGHT.get(d,m['property'])} |\n"
tail=tail.replace('@FIXED@',fx).replace('@KNOWN@',kn).replace('@SEEDED@',sd.rstrip())
out+=['',tail,'']
open(V+'/DESIGN.md','w').write('\n'.join(out))
