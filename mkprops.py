#!/usr/bin/env python3
"""writes properties.jsonl (kept as a script because the lines are long)"""
import json
R='src/pyRFtk/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=[R+f for f in files],mechanism=[dict(name=n,where=R+w) for n,w in mech]))
    if observe: d['anchors']['observe_at']=observe
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=R+c) for a,b,c in state]
    d['anchors']['hook_needed']=None
    assert len(title)<=80,title
    P.append(d)

p('C01','Circuit S-matrix equals that of the physical network',
 'For every circuit assembled from blocks (multi-port matrices, lines, lumped elements, couplers, arrays, nested circuits) with any port renaming, any junctions and any terminations given as impedance, admittance or reflection coefficient, the S-matrix at any frequency and any reference impedance is the one that follows from the behaviour of the blocks, equal voltages and zero total current at each junction, and the terminating impedances. The external ports are exactly the ports left free plus the free named junctions, in the announced order if one was given, and the rows and columns follow that list.',
 ['programs','inputs','configurations'],
 'all sequences of add/connect/terminate operations (up to a depth) on small alphabets of blocks and port mappings, junction arities 1..5, nesting up to 3 levels, all orders of construction, reference impedances of blocks, circuit and request chosen independently',
 'the tests build a handful of fixed circuits, mostly of equal 2-port lines on 50 Ohm, and print the matrices without comparing them with anything',
 ['rfCircuit.py','rfBase.py','ConvertGeneral.py'],
 [('addblock: assembly of the wave equations','rfCircuit.py:addblock'),('connect: ideal junction','rfCircuit.py:connect'),('terminate','rfCircuit.py:terminate'),('extS: elimination of the internal waves','rfCircuit.py:extS'),('getS: block S-matrices and reference impedance','rfCircuit.py:getS')],
 ['rfCircuit.getS','rfCircuit.ports'],
 [('M','wave equations of the circuit','rfCircuit.py:__init__'),('ports / Portnames','free external ports and the announced order','rfCircuit.py:__init__')])

p('C02','Results always reflect the current state of the circuit',
 'After any sequence of evaluations, changes of parameters made through the circuit, on an object in it or given with a call, per-block parameters of shared objects, new values of tables, terminations and re-terminations, and replacements of blocks at any depth, the S-matrices, node solutions and maximum voltages are those of a circuit built afresh in the current state. Evaluating a circuit in any way, at any frequency, in any order, never changes the outcome of later evaluations.',
 ['histories'],
 'all operation sequences up to a bounded length over a menu of evaluations (S-matrix, solution, maximum voltage, internal S-matrix; several frequencies and impedances) and mutations on circuits with nested and shared objects',
 'results are cached per frequency in every object; the tests evaluate a circuit once or twice and never compare with a fresh circuit',
 ['rfCircuit.py','rfTRL.py','rfRLC.py','rfBase.py'],
 [('cache test in getS','rfCircuit.py:getS'),('invalidation in set/terminate/addblock','rfCircuit.py:set'),('solved-cache of lines','rfTRL.py:solveVI'),('set of elements','rfBase.py:set')],
 ['rfCircuit.getS','rfCircuit.Solution','rfCircuit.maxV'],
 [('f, S, invM, flags','last solution','rfCircuit.py:getS'),('solved','per frequency solutions of a line','rfTRL.py:__init__')])

p('C03','Node voltages, currents and waves obey the circuit laws',
 'For any excitation of the external ports at any reference impedance, the solution gives for every requested node at any nesting depth the voltage, the current into the node and the forward and reverse waves of the physical network: equal voltages and zero current sum at junctions, the terminating impedance at terminations, the behaviour of each block at its ports, and waves consistent with voltage and current on the requested impedance. The S-matrix between selected internal nodes is the one relating those very waves.',
 ['programs','inputs'],
 'all circuits of the C01 alphabets, unit and complex excitations of all external ports, three reference impedances, every node subset selection mode, nodes of nested circuits with renamed ports',
 'the tests print one solution; nested circuits with renamed or swapped ports and impedances other than 50 Ohm are never solved for',
 ['rfCircuit.py'],
 [('Solution and its recursion','rfCircuit.py:Solution'),('solve','rfCircuit.py:solve'),('Get_internalSmatrix','rfCircuit.py:Get_internalSmatrix')],
 ['rfCircuit.Solution','rfCircuit.Get_internalSmatrix'])

p('C04','Reported maximum voltages and voltage profiles are the true ones',
 'The maximum voltage reported for any element or circuit and any excitation is the largest voltage magnitude over all its nodes and all points along all its lines at every nesting depth, to within the resolution of the standing-wave sampling. The returned tree holds one entry for every node, line and nested block, whose values are the voltage magnitudes of the physical solution at the listed positions.',
 ['programs','inputs'],
 'elements of every kind and circuits with nesting up to 3 levels, excitation patterns over {0, 1, complex}, three reference impedances, lines shorter and longer than a wavelength, placements relative to the origin and to each other',
 'the tests compute one voltage tree and only plot or print it',
 ['rfCircuit.py','rfTRL.py','rfRLC.py','rfObject.py','rfBase.py','maxfun.py'],
 [('rfCircuit.maxV','rfCircuit.py:maxV'),('rfTRL.maxV and VISWs','rfTRL.py:maxV'),('maxfun','maxfun.py:maxfun'),('element maxV','rfBase.py:maxV')],
 ['maxV of every object'])

p('C05','Positions of ports and nodes are consistent',
 'The position of a port or node at any nesting depth is the sum of the relative positions of the blocks that contain it and the position of the port on its object; a named junction is where the first of the joined existing ports is, and stays there when it is joined or terminated in turn. The list of port positions of a circuit, the position query, and the positions in voltage trees agree and follow every reordering or renaming of the ports.',
 ['programs','histories'],
 'all small circuits with distinct relative positions and distinct port positions, nesting up to 3 levels, renaming, swapping and announced port orders, junction names that are joined or terminated later, arrays without positions',
 'positions are only used in one plot in the tests',
 ['rfCircuit.py','rfTRL.py','rfBase.py','rfObject.py'],
 [('getpos','rfCircuit.py:getpos'),('xpos bookkeeping in addblock/connect/terminate/deembed','rfCircuit.py:addblock'),('resolve_xpos','rfCircuit.py:resolve_xpos'),('placement of the profiles','rfCircuit.py:maxV')],
 ['rfCircuit.xpos','rfCircuit.getpos','rfCircuit.maxV'])

p('C06','De-embedding undoes embedding',
 'Removing known networks or line lengths from a multi-port by de-embedding gives back the S-matrix of the part that remains, for any ports, any order of ports, and any reference impedances of the parts. For tabulated data, de-embedding a line of a given length and adding the same line are inverse operations at every frequency, in any unit of frequency, and leave all untouched ports unchanged.',
 ['programs','inputs'],
 'all assignments of internal and external port pairs of small circuits (embedding networks of 2 to 4 ports, 1 or 2 internal ports), all port subsets and length/line-parameter forms for tabulated data, several impedances and units',
 'the test de-embeds two configurations and prints the difference of matrices',
 ['rfCircuit.py','rfObject.py'],
 [('rfCircuit.deembed','rfCircuit.py:deembed'),('rfObject.deembed','rfObject.py:deembed')],
 ['rfCircuit.deembed','rfObject.deembed'])

p('C07','Conversions between S, Z, Y, V/I and reference impedances are physical',
 'Converting network matrices between S, Z and Y, from voltages and currents, or between scalar or per-port reference impedances describes the same physical network: the same voltages and currents satisfy both descriptions, conversions compose, and converting forth and back is the identity. A conversion preserves the arrangement of its input: a single matrix gives a matrix, a stack or list of matrices gives the matrices in the same order, each converted by itself.',
 ['inputs'],
 'port counts 1..4, non-reciprocal complex matrices from a finite alphabet (including open, short, matched, zero), impedance alphabets scalar/list/per-port/complex, input arrangements scalar to nested lists, stacks of 0..3',
 'the tests convert one 2-port once',
 ['ConvertGeneral.py','S_from_Z.py','S_from_Y.py','Z_from_S.py','Y_from_S.py','S_from_VI.py','_check_3D_shape_.py'],
 [('ConvertGeneral','ConvertGeneral.py:ConvertGeneral'),('S_from_Z','S_from_Z.py'),('S_from_Y','S_from_Y.py'),('Z_from_S','Z_from_S.py'),('Y_from_S','Y_from_S.py'),('S_from_VI','S_from_VI.py')])

p('C08','Written touchstone data read back as the same network',
 'Whatever writer is used and whatever frequency unit, matrix type, number format, reference impedance and port count is asked for, reading the written touchstone text back gives the same frequencies, port names where written, and the same physical network to the precision of the written digits. The text obeys the touchstone format, so that any conforming reader finds the same data, including the 2-port order and the reference impedance.',
 ['inputs','configurations'],
 'all combinations of writer, unit, type, format, impedance source and 1..10 ports, several frequency grids, asymmetric matrices',
 'there is no test that writes and reads back',
 ['rfBase.py','WriteTSF.py','ReadTSF.py','rfObject.py'],
 [('tsf2str/write_tsf','rfBase.py:tsf2str'),('WriteTSF','WriteTSF.py:WriteTSF'),('ReadTSF','ReadTSF.py:ReadTSF')])

p('C09','Touchstone text is read for what it says',
 'Reading a valid touchstone text yields the network it describes under the touchstone rules: option line fields in any order or case with their defaults, data in any line layout, comments anywhere, the order of 2-port data, and the number of ports found from the name, the text or the data. Frequencies come in the requested unit, matrices on the requested impedance, ports in the declared or requested naming, from a file or from text alike.',
 ['inputs','configurations'],
 'all option line permutations/omissions, layouts of the numbers over lines, comment placements, port counts 1..10, sources, requested units and impedances',
 'one file of one vendor is read in the tests',
 ['ReadTSF.py','rfObject.py'],
 [('ReadTSF','ReadTSF.py:ReadTSF'),('rfObject.read_tsf','rfObject.py:read_tsf')])

p('C10','Tabulated S-matrices behave as a table over frequency',
 'After any sequence of setting, overwriting, item assignment, port sorting, impedance change and reading of files, a tabulated object returns at each stored frequency exactly the network stored last for it, whatever order the frequencies came in, and between them the documented interpolation of the stored data only. Its length, frequencies, port names, positions and impedance always describe the data it returns.',
 ['histories','inputs'],
 'all operation sequences up to a bounded length over insertions at colliding and out-of-order frequencies (single and lists), sorting, impedance changes, item assignment, evaluation and interpolation modes, 1..3 ports',
 'the test sets a single matrix and prints it',
 ['rfObject.py'],
 [('setS/_sort_fs_','rfObject.py:setS'),('getS/interpolation','rfObject.py:getS'),('sortports','rfObject.py:sortports'),('convert2newZbase','rfObject.py:convert2newZbase')],
 ['rfObject.getS','rfObject.ports','rfObject.fs'])

p('C11','Lines obey the telegraphist equations',
 'The S-matrix and the voltage and current profiles of a line section follow from its line parameters by the telegraphist equations, for lossless and lossy lines with constant, position-dependent or frequency-dependent parameters, any length including zero, any frequency including zero, any reference impedance and any step setting. Cutting a line into sections, or giving constant parameters in a varying form, changes nothing; a uniform lossless line conserves power.',
 ['inputs','configurations'],
 'line parameter alphabets (Z0, velocity, per-length R and G, attenuation, coax dimensions), forms of specifying (scalar, list, table, function of x and/or w), lengths 0 to several wavelengths, step settings, frequencies and impedances, excitations',
 'the tests use lossless 50 Ohm lines given by length only',
 ['rfTRL.py','S_from_VI.py'],
 [('solveVI','rfTRL.py:solveVI'),('getS','rfTRL.py:getS'),('VISWs','rfTRL.py:VISWs')],
 ['rfTRL.getS','rfTRL.solveVI','rfTRL.VISWs'])

p('C12','Line parameters are resolved consistently from any sufficient set',
 'Whatever sufficient set of line quantities is given (characteristic impedance, per-length constants, relative velocity, medium constants, coaxial dimensions, conductivities, loss tangent, attenuation in 1/m or dB/m), the resolved per-length impedance and admittance satisfy the textbook relations with every quantity that was given, and quantities not determined take the documented defaults. Given quantities are never replaced, and equivalent sets give the same line.',
 ['inputs','configurations'],
 'all consistent subsets (up to a size) of the quantities of a family of reference lines for which the result is determined, given as scalars, lists or functions, several frequencies and positions',
 'only lossless lines given by the impedance are tested',
 ['resolveTLparams.py','rfTRL.py'],
 [('equation table and solver','resolveTLparams.py:TLresolver'),('parameter forms','resolveTLparams.py:_linfunL')],
 ['rfTRL.getS','TLresolver.rjwL','TLresolver.gjwC'])

p('C13','Lumped RLC sections match their circuit at every frequency',
 'The S-matrix of the lumped section is the one of a series R-L-C followed by a parallel R-L-C to ground for any combination of present and absent elements, at any frequency including zero and any reference impedance. Setting or passing element values has the same effect as building the section with them, and single frequencies, lists and arrays give the same matrices.',
 ['inputs','histories'],
 'all subsets of the six elements with values from a finite alphabet (including zero and infinite), frequencies including 0, impedances, set/params histories',
 'one RLC is evaluated at a few frequencies and printed',
 ['rfRLC.py'],
 [('getS','rfRLC.py:getS'),('set','rfRLC.py:set')],['rfRLC.getS'])

p('C14','Coupler, arc and fixed S-matrix elements match their definitions',
 'A coupler has the S-matrix of a matched, lossless, reciprocal backward-wave coupler of its coupling and length, with its port naming, quarter wave at the centre frequency; an arc element is a 1-port inductance to ground, open when infinite; a fixed S-matrix element returns the given matrices at the given frequencies and refuses others. All can be requested on any reference impedance.',
 ['inputs'],
 'couplings 0..1 given as fraction or dB, length or centre frequency or neither, frequencies, inductances including 0 and infinite, impedances, 1..3 port matrices',
 'the tests print an arc and a fixed matrix',
 ['rfCoupler.py','rfArcObj.py','rfBase.py'],
 [('rfCoupler.get1S','rfCoupler.py:get1S'),('rfArcObj.get1S','rfArcObj.py:get1S'),('rfBase.get1S/getS','rfBase.py:getS')])

p('C15','Copies are equivalent and independent',
 'A copy of any object or circuit, made at any moment by any means of copying, gives the same results as the original and can be modified, solved, terminated and extended in the same ways. No operation on the one ever changes a result, port, position or parameter of the other, and objects shared inside a circuit stay shared inside its copy.',
 ['histories'],
 'every class, copied before/after evaluation and after mutation, by copy method, copy and deepcopy, followed by all mutations of a menu on either side (also on nested objects)',
 'one copy is made and printed',
 ['rfBase.py','rfCircuit.py','rfTRL.py','rfRLC.py','rfObject.py','rfGTL.py'],
 [('__deepcopy__','rfBase.py:__deepcopy__'),('rfObject.copy','rfObject.py:copy'),('rfTRL copy','rfTRL.py:__deepcopy__')])

p('C16','Data of the caller is neither modified nor shared',
 'No call modifies an argument (lists of ports, dictionaries of port names, excitations or parameters, arrays, positions, frequencies), except the voltage tree that is scaled in place. Changing an argument after a call, or changing anything a call returned, has no effect on the objects or on later results.',
 ['histories','inputs'],
 'every public call of every class with mutable arguments or results: compare arguments before and after, scramble arguments and results afterwards and compare all later answers with those of an untouched twin',
 'aliasing only shows when the caller reuses or edits its data, which the tests do not do',
 ['rfCircuit.py','rfBase.py','rfTRL.py','rfRLC.py','rfObject.py','ConvertGeneral.py'],
 [('argument handling in addblock/deembed/getS','rfCircuit.py:addblock'),('returned caches','rfTRL.py:solveVI'),('rfObject.setS','rfObject.py:setS')])

p('C17','A circuit read from a model file equals the circuit it describes',
 'The circuit built from a model file (lines, lumped elements and arcs with their units, variables and expressions, overridden variables, shared port names as junctions, open, short and other terminations, declared ports and positions) has the S-matrix, port order, positions and voltages of the same circuit assembled by hand. Inconsistent declarations are refused.',
 ['programs','configurations'],
 'all small models over an alphabet of blocks, port sharing patterns, terminations, variables global/local/overridden/chained, key aliases, declared port orders and positions',
 'the only test of model files fails in this environment',
 ['rfGTL.py','rfCircuit.py'],
 [('model interpretation','rfGTL.py:__init__'),('getSgtl/getS','rfGTL.py:getS')],
 ['rfGTL.getS','rfGTL.ports','rfGTL.xpos'])

p('C18','Logging, printing and introspection never change results',
 'Raising the log level to any standard level, printing or listing objects at any detail and at any moment, and querying their structure works for every object and never changes any result, port, position or parameter, nor makes an operation fail that works without it.',
 ['histories','configurations'],
 'all operation histories of a menu run at each log level and with printing/listing inserted at every step, compared with the plain run',
 'the tests run at fixed levels and do not compare',
 ['config.py','rfBase.py','rfCircuit.py','rfTRL.py','rfRLC.py','rfObject.py'],
 [('logident/ident','config.py:logident'),('__str__','rfCircuit.py:__str__'),('listBlocks/findObj','rfCircuit.py:listBlocks')])

p('C19','Files are found and read as described',
 'Searching for a file returns an existing match from the first directory, in the order environment, user, application directories, that holds one at any depth, and reports absence when none does, also when directories are missing. Reading dictionary data and lines from files, text or open files gives exactly the content that is written, in order.',
 ['inputs','configurations'],
 'all small directory trees (up to depth 3) with matching and non-matching names, directory lists of every kind and missing directories; all small texts over an alphabet of lines and blank lines from the three kinds of source',
 'these helpers have no test',
 ['findpath.py','ReadDictData.py','getlines.py'],
 [('findpath/existspath','findpath.py'),('ReadDictData','ReadDictData.py'),('getlines','getlines.py')])

p('C20','Voltage-profile utilities preserve and report what they are given',
 'The maximum of sampled data is found where it is, at an end or inside, exactly for parabolic data and never below the largest sample. Scaling a voltage tree multiplies every voltage by the factor and touches nothing else; the text and plot of a tree show every line and node with its positions and values, the same at each call.',
 ['inputs'],
 'all short sample sequences over a value alphabet with uniform and non-uniform positions; all small trees (depth up to 3) of nodes and lines with negative and missing positions, scale factors',
 'the tests plot one tree',
 ['maxfun.py','plotVSWs.py','str_dict.py'],
 [('maxfun','maxfun.py:maxfun'),('scaleVSW/strVSW/plotVSWs','plotVSWs.py'),('str_dict','str_dict.py')])

p('C21','All objects answer frequency requests uniformly',
 'For every kind of object the answer for a list or array of frequencies is the list of the answers for each frequency by itself, in the order asked and whatever was asked before, repeated or unsorted; a single frequency gives a single matrix of the size of the object. Asking on another reference impedance is converting the answer to that impedance, and each object can stand as a block of a circuit with the same outcome.',
 ['inputs','histories'],
 'every class, all short frequency sequences with repetitions and all container kinds, request impedances, preceding requests, wrapping in a circuit on another impedance',
 'the tests ask one frequency at a time',
 ['rfBase.py','rfCircuit.py','rfTRL.py','rfRLC.py','rfObject.py','rfGTL.py','rfCoupler.py','rfArcObj.py'],
 [('getS of each class','rfBase.py:getS')],['getS of every object'])

p('C22','Rejected operations leave the object as it was',
 'An operation that cannot be carried out (unknown, duplicate, used or wrongly counted ports, unknown parameters or attributes, mismatching sizes, contradictory arguments, missing frequencies) is refused with an error. The object then has the same ports, positions and results as before and can be used and built further as if the operation had never been tried.',
 ['fault_sequences','histories'],
 'every invalid operation of a menu inserted at every point of construction and evaluation histories of circuits, tables and elements, compared with the history without it',
 'the tests provoke two errors and do not look at the object afterwards',
 ['rfCircuit.py','rfObject.py','rfBase.py','rfTRL.py','rfRLC.py'],
 [('validation in addblock/connect/terminate/deembed/set','rfCircuit.py:connect'),('validation in setS/sortports/deembed','rfObject.py:setS'),('set of elements','rfBase.py:set')])

p('C23','Passive networks keep power balance and reciprocity',
 'A network composed of reciprocal parts is reciprocal, one composed of lossless parts is lossless, and one composed of passive parts never returns more power than it receives, at any frequency and for any topology, nesting and real reference impedance. The power entering the external ports equals the power dissipated in the terminations and lossy parts computed from the node solution.',
 ['programs','inputs'],
 'all circuits of the C01 alphabets restricted to reciprocal/lossless/passive parts, several frequencies and impedances, complex excitations',
 'the tests do not check any invariant',
 ['rfCircuit.py','rfTRL.py','rfRLC.py','ConvertGeneral.py','rfCoupler.py'],
 [('extS','rfCircuit.py:extS'),('solveVI','rfTRL.py:solveVI'),('getS','rfRLC.py:getS')])
p('C24','Matrices are printed and compared element by element',
 'Every printed matrix shows its shape and, row by row, every element in the requested form (real and imaginary part, magnitude and angle, decibel and angle, real part, or a form of the caller), zeros being shown as the given text in the same width. A comparison figure shows the magnitude and the phase of every element of the lower triangle of all the data sets against their own frequencies under their own names, none left out; data that does not fit together is refused.',
 ['inputs','configurations'],
 'all matrices of at most 2x2 over an alphabet of elements around the limit of what is zero, larger ones, all print functions, own formats, lists and arrays; 1 to 9 data sets of 1..3 ports with common or own frequencies, styles and labels',
 'no test looks at what is printed or plotted',
 ['printMatrices.py','compareSs.py'],
 [('strM and the print functions','printMatrices.py:strM'),('compareSs','compareSs.py:compareSs')])
p('C25','What an object says about itself agrees with its state',
 'The description of an object (printed, at every level of detail) agrees with its state at that moment, whatever happened before: name, reference impedance, ports with their positions, values of elements and line parameters (with what they were derived from and depend on), the last evaluation with its frequency and matrix. The description of a circuit shows all its equations (which the waves of the circuit satisfy), all blocks with the ports and positions they have in the circuit and the description of the object in them, and that of a model file its variables with their values. The parts of a circuit are listed completely and found under their paths, and only there; the outline of a voltage tree shows all its entries.',
 ['inputs','programs','configurations'],
 'every kind of object after all histories of at most two evaluations, changes, copies; all circuits of the catalogue, also with names that invite confusion, after every construction step and every kind of evaluation; all levels of detail; all paths and all near misses of paths; model files with all combinations of four variables; voltage trees',
 'no test looks at descriptions',
 ['rfCircuit.py','rfBase.py','rfTRL.py','rfRLC.py','rfObject.py','rfGTL.py','rfCoupler.py','rfArcObj.py','resolveTLparams.py','str_dict.py'],
 [('__str__','rfCircuit.py:__str__'),('listBlocks, findObj, object','rfCircuit.py:listBlocks'),('__str__','resolveTLparams.py:__str__'),('str_dict','str_dict.py:str_dict')])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
