"""Writes properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json, os
A="ccblade/ccblade.py"; P="ccblade/airfoilprep.py"; C="ccblade/ccblade_component.py"; S="ccblade/csystem.py"; F="ccblade/src/bem.f90"
rows=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    rows.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
                   mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(observe),hook_needed=hook)))

prop("C01","A rotor's answers do not depend on what was asked before",
 "For given geometry, airfoils and settings, every load, power, thrust, torque, moment, coefficient and gradient a rotor returns for an operating condition is the one a freshly built rotor returns in a fresh process, whatever was done before on that rotor, on other rotors or on the shared airfoils: other conditions, parked conditions, coefficient or gradient requests, airfoil queries, inverse designs that solve for twist, calls that failed and calls interrupted midway. After a completed inverse design the twist in force is the one this design alone produces, whatever preceded it. (While an interrupted inverse design has not been repeated, nor the twist assigned, the twist is undefined.) Results already handed out never change afterwards, and overwriting them does not influence later answers.",
 ["histories","fault_sequences","inputs"],"for all sequences of operations, with failures and interruptions at any point of any of them, on any rotor",
 "The tests build one rotor per case and ask one or two questions; no test asks again after other questions, after a failure or after an interruption, and none compares with a fresh process.",
 [A,F],[("each solve starts from fixed limits and fresh work arrays",A+" distributedAeroLoads"),("pitch is overwritten at the start of every solve",A+" distributedAeroLoads"),("twist is cleared before an inverse solve",A+" distributedAeroLoads"),("Fortran kernels keep no state",F)],
 [("pitch, inverse mode, twist","attributes that outlive one call",A+" CCBlade"),("last gradient matrices","handed from the load solve to the integration through the object",A+" CCBlade")],
 ["return values of the load and evaluate calls"])
prop("C02","Rotors analysed in parallel threads do not disturb each other",
 "When several rotors are analysed at the same time in different threads of one process, each rotor's results equal those it gives when analysed alone, for every interleaving of the threads, also when the rotors share airfoil objects, arrays and option values, when airfoils are queried directly by other threads, and when one of the threads fails. Every thread finishes. (Using one rotor object from two threads at once is not promised.)",
 ["schedules","inputs"],"for all interleavings of the threads' steps, and all rotors that share nothing but airfoils and caller data",
 "Every test is single-threaded; the interesting interleavings need a preemption inside a solve.",
 [A,F],[("all work data are local variables or belong to one rotor",A+" CCBlade"),("airfoil evaluation only reads the splines",A+" CCAirfoil.evaluate")],
 [("airfoil splines","shared between rotors",A+" CCAirfoil")],["return values in each thread"])
prop("C03","Failures and interrupts always reach the caller",
 "If an airfoil model raises an error of any class while it is being evaluated or differentiated during an analysis, or a keyboard interrupt or out-of-memory error strikes at any point of an analysis, of an airfoil query or of an inverse design, the call ends with that error: it is never absorbed and turned into loads, zeros, gradients or a warning. Once the cause is gone, repeating the same call on the same objects gives the correct answer.",
 ["fault_sequences","crash_points","inputs"],"for all fault points inside an analysis, all error classes and all rotors",
 "No test makes an airfoil model fail or interrupts an analysis; the fault points number in the thousands per call.",
 [A],[("only the root finder's own complaints are turned into a warning",A+" distributedAeroLoads"),("gradient fallback limited to the one expected case",A+" CCAirfoil.derivatives")],
 (),["exceptions seen by the caller"])
prop("C04","A section without a solution is contained",
 "If the airfoil data of some blade sections persistently evaluate to not-a-number, the analysis still completes, spinning or parked, with or without gradients: those sections report zero normal and tangential load, induction and angle of attack, every other section reports exactly what it would have reported otherwise, and the rotor totals are finite and those of the same rotor with these sections carrying no load; where the inflow angle of a spinning section cannot be found, the caller gets a warning. Not-a-number values that occur only for a while during the solution never put a not-a-number into any reported load or total and never change other sections, other azimuths or other operating points. (Gradients may be refused with an error where the normal force of a section is exactly zero.)",
 ["fault_sequences","inputs"],"for all sets of failing sections, all points at which the data turn bad (and good again), and all conditions",
 "No test has an airfoil that yields not-a-number; the code that handles it is never executed.",
 [A],[("failed root searches and not-a-number loads are zeroed per section",A+" distributedAeroLoads")],(),["loads and totals","warnings"])
prop("C05","Operating points can be split, reordered, repeated and shipped to workers",
 "A batch of operating points gives, for each point, the loads, power, thrust, torque, moments, coefficients and gradients this point gives on its own, so a batch may be split over workers, reordered, repeated and merged freely. A rotor (fresh, already used, or left over from an interrupted analysis) can be serialised or copied, and the copy in another process gives the same results; lost, late and duplicated replies and workers that crash and are restarted therefore change nothing in the merged result. An operating point that cannot be evaluated properly does not contaminate the other points of its batch.",
 ["schedules","fault_sequences","inputs"],"for all partitions and orders of the points, and all schedules of message loss, duplication, delay and worker crashes",
 "The tests evaluate single points on a rotor made in the same process.",
 [A],[("points and azimuths are accumulated independently",A+" evaluate"),("rotor and airfoils consist of plain data",A)],(),["merged results"])
prop("C06","The caller's data are never modified",
 "No operation on rotors or airfoils, whether it completes, fails or is interrupted at any point, modifies anything the caller passed in: geometry and twist arrays, operating-condition arrays, airfoil tables, airfoil lists and airfoil objects. Conversely, the caller may reuse or overwrite the geometry, condition and airfoil-table arrays after the call that received them has returned, without any effect on the rotors, airfoils and results made from them.",
 ["histories","crash_points","inputs"],"for all sequences of operations and interruption points",
 "Tests never look at their inputs again after a call, and never reuse the buffers they passed.",
 [A,P],[("constructors copy or convert their arrays",A+" CCBlade.__init__"),("conditions are copied on entry",A+" evaluate")],(),["the caller's arrays and objects"])
prop("C07","Airfoil preprocessing leaves operands intact and is repeatable",
 "Blending, 3-D correction, extrapolation, Reynolds interpolation, regridding, data-grid creation and unsteady-parameter calculation never change the polars and airfoils they operate on, not even when they fail or are interrupted, and never return objects through which a later operation or the caller can change the operands. Applied to the same operands and arguments they give the same result each time, whatever was done before and however operations on shared operands are interleaved between threads.",
 ["histories","schedules","crash_points"],"for all sequences and interleavings of preprocessing operations over shared polars and airfoils",
 "Tests apply one operation to a fresh object and look at the result only; none is threaded or interrupted.",
 [P],[("operations build new objects",P+" Polar, Airfoil"),("deep copies are handed out",P+" getPolar")],
 [("extrapolation scratch values","kept on the operand",P+" Polar.extrapolate")],["operands and results"])
prop("C08","An airfoil saved in AeroDyn format loads back the same",
 "Saving an airfoil to an AeroDyn file and loading that file gives the same Reynolds numbers in ascending order and, on the common grid of angles of attack, the same lift, drag and moment data, to the six decimals the format carries; saving and loading again changes nothing more. This holds whatever the target file held before, however the operating system splits or interrupts the reads and writes, however often and in whatever order files are saved and loaded, and for the files written by the command-line tool, which contain what the corresponding library operation gives.",
 ["inputs","histories","fault_sequences"],"for all airfoils, all previous contents of the target, all sequences of saves and loads, and all short, split or interrupted reads and writes",
 "No test writes a file; loading is only tested with the files in the repository.",
 [P,A],[("writer and reader agree on one line per record",P+" writeToAerodynFile, initFromAerodynFile"),("the target is truncated on opening",P+" writeToAerodynFile")],(),["files and loaded objects"])
prop("C09","A torn or truncated airfoil file is never taken for a complete one",
 "If the process or machine dies at any point while an airfoil file is being saved (to a new name or over an existing file), or only a leading part of the file survives, possibly followed by zero bytes, then loading that file either raises an error or yields the complete airfoil that was being saved (or, as long as the file was not touched yet, the previous one): never fewer tables, never tables with missing or altered rows, and never a mixture with older contents. This holds for both ways of loading a file.",
 ["crash_points","inputs"],"for all crash points of a save and all lengths to which a file can be cut",
 "No test loads a damaged file.",
 [P,A],[("every table must be closed by its end marker and rows must be complete",P+" initFromAerodynFile"),("the number of tables is declared up front",P+" initFromAerodynFile")],(),["loaded objects, exceptions"])
prop("C10","I/O failures surface and nothing leaks",
 "If opening, reading or writing a file fails in the operating system (missing file, no permission, full disk, I/O error) at any point while an airfoil is saved or loaded, or while the command-line tool runs, the caller gets an error: a save or tool run that reports success has completely written its file, and a load never yields a partial airfoil. After the error no file stays open, the objects in memory are unchanged, and repeating the operation once the fault is gone succeeds.",
 ["fault_sequences","inputs"],"for all positions and kinds of I/O failure",
 "No test makes a system call fail.",
 [P,A],[("errors are not caught; files are closed when frames unwind",P)],(),["exceptions, file contents, open descriptors"])
prop("C11","Parallel flap-geometry workers are isolated",
 "When several worker processes compute flapped airfoil coordinates in the multi-process mode in the same directory at the same time, each obtains exactly the coordinates for its own airfoil, flap angle, hinge and panel count, for every interleaving of their file operations and XFOIL runs, also when they work on airfoils of the same name with the same flap angle, and when other workers fail or are killed at any point.",
 ["schedules","crash_points"],"for all interleavings of the workers' file operations, and all kills of other workers",
 "No test runs the flap computation at all (XFOIL is not there), let alone two at once.",
 [A],[("file names carry the process id",A+" af_flap_coords")],[("shared working directory","scripts, coordinates and results of all workers",A+" af_flap_coords")],["coordinates installed on each airfoil"])
prop("C12","Flap coordinates always come from this call's XFOIL run",
 "After a flap computation returns, the coordinates it installed are the complete ones XFOIL produced in this very call for this call's airfoil, flap angle, hinge and panel count; files left over by earlier calls, by crashed workers or by a worker with the same process id are never used. If XFOIL is missing, crashes at any point, fails without saving, or a file operation fails, the call raises an error and the airfoil's flap coordinates are the previous ones or the complete new ones, never a part or a mixture. A later call without faults succeeds.",
 ["fault_sequences","crash_points","histories"],"for all crash and failure points of workers and XFOIL, and all leftovers they can leave behind",
 "No test runs the flap computation.",
 [A],[("stale files are removed before the run",A+" af_flap_coords"),("XFOIL's exit status is checked",A+" af_flap_coords"),("coordinates are installed only after they were loaded",A+" af_flap_coords")],(),["coordinates installed on the airfoil, exceptions"])
prop("C13","A successful flap computation leaves no traces and touches no foreign files",
 "After a successful flap computation none of its scripts, coordinate files, logs or results remain in the working directory. Files in the directory that belong to others, including files of other worker processes with similar names, are never opened for writing, changed or removed, whether the computation succeeds or fails.",
 ["schedules","fault_sequences","histories"],"for all interleavings with other workers, all leftovers and all fault points",
 "No test runs the flap computation.",
 [A],[("temporary files are removed by name at the end",A+" af_flap_coords")],(),["directory contents"])
prop("C14","OpenMDAO partials and totals follow the current inputs",
 "The partial derivatives that an OpenMDAO loads, evaluation or geometry component delivers are those of its current inputs (and discrete inputs), whatever sequence of runs, linearisations, finite-difference checks, failed or interrupted runs and input changes came before, and whichever other instances exist. Linearising without or after a failed run never delivers derivatives of other inputs.",
 ["histories","fault_sequences","inputs"],"for all sequences of model operations and faults",
 "The gradient tests set inputs once, run once and check once.",
 [C],[("partials are recomputed from the inputs at linearisation",C+" compute_partials")],[("gradients kept from the last run","must belong to the current inputs",C+" CCBladeLoads")],["Jacobians and totals"])
prop("C15","OpenMDAO component outputs depend only on the current inputs",
 "After a successful run every OpenMDAO component of this package (loads, evaluation, twist design, geometry) delivers the outputs a freshly set-up problem gives for the same inputs, whatever runs, linearisations, failed or interrupted runs and input changes came before in this or other instances; component inputs are never modified, and an error inside a component's run is reported, not absorbed.",
 ["histories","fault_sequences","inputs"],"for all sequences of model operations and faults on several instances",
 "The tests run each component once.",
 [C],[("components build their rotor and airfoils afresh in every run",C+" compute")],(),["component outputs"])
prop("C16","Analyses leave the process as they found it",
 "Analyses, airfoil queries, preprocessing, file input and output and flap computations leave process-wide state alone, whether they complete, fail or are interrupted at any point: floating-point error handling, print options, warning filters, random-number generators, working directory, environment, signal handlers, standard streams, open files, threads and child processes are afterwards what they were before, and results do not depend on the state of the random-number generators, the working directory, print options, warning filters or the (non-raising) floating-point error handling.",
 ["histories","fault_sequences","crash_points"],"for all operations and all interruption and failure points inside them",
 "No test looks at process state, and none interrupts an operation.",
 [A,P],[("no global state is set",A+", "+P)],(),["process-wide state before and after"])

NA="pure function of its inputs"
prop("C30","The solved sections satisfy the blade-element momentum equations","At every section the reported inflow satisfies the blade-element momentum balance with the selected loss and drag options, in the physically valid range of inflow angles, and a solution is found for every physically admissible section.",["inputs"],"for all sections and conditions","Tests sample one rotor at a few wind speeds.",[A,F],[("bracketed root search",A+" distributedAeroLoads"),("residual",F+" inductionFactors")])
prop("C31","Gradients are the derivatives of the reported values","Every analytic derivative of loads, totals and coefficients equals the true derivative of the reported value with respect to that input.",["inputs"],"for all rotors and conditions where the value is differentiable","Tests compare with finite differences on one rotor.",[A,F],[("implicit differentiation and Tapenade code",A+", "+F)])
prop("C32","Airfoil evaluation is smooth and reproduces its table","Evaluated lift and drag are continuously differentiable in angle of attack and Reynolds number and reproduce the tabulated data to within the smoothing.",["inputs"],"for all tables","No test evaluates an airfoil alone.",[A],[("bivariate splines",A+" CCAirfoil")])
prop("C33","Totals and coefficients are consistent","Power equals torque times rotational speed, coefficients are totals divided by their reference quantities, and totals are the integral of the distributed loads over blades and azimuth.",["inputs"],"for all rotors and conditions","One rotor is sampled.",[A,F],[("integration",F+" thrustTorque"),("normalisation",A+" evaluate")])
prop("C34","Coordinate transformations are rotations and mutual inverses","Transforming a vector between any two of the coordinate systems preserves its length and transforming back returns it.",["inputs"],"for all vectors and angles","No test covers the transformations.",[S],[("rotation formulas",S)])
prop("C35","Extrapolated polars cover all angles and keep the original data","An extrapolated polar spans -180 to 180 degrees in increasing order, contains the original points unchanged apart from the drag floor, and respects the minimum drag.",["inputs"],"for all polars","Tests compare one polar with stored numbers.",[P],[("Viterna extrapolation",P+" Polar.extrapolate")])
prop("C36","Blending and Reynolds interpolation have the right end points","Blending with weight 0 or 1 gives one or the other operand on the common range, intermediate weights interpolate linearly, and Reynolds numbers outside the table give the nearest polar.",["inputs"],"for all operands and weights","Tests compare single cases.",[P],[("linear blending",P+" blend, getPolar")])
prop("C37","Inverse design reaches the prescribed section condition","With the twist found by an inverse design, a forward analysis at the design condition gives the prescribed angle of attack at every section.",["inputs"],"for all prescribed distributions","Not tested.",[A,C],[("twist from solved inflow angle",A+" distributedAeroLoads")])
prop("C38","Rotor symmetry and similarity","Without tilt, yaw and shear the loads do not depend on azimuth and side forces vanish, and loads scale with density at fixed Reynolds number.",["inputs"],"for all rotors","Not tested.",[A,F],[("wind components",F+" windComponents")])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for r in rows: f.write(json.dumps(r)+"\n")
for r in rows: assert len(r["title"])<=80,r["id"]
