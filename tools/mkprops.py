"""Writes properties.jsonl (run by hand; the output is committed)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state, observe):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=[dict(name=n) for n in state if n != "none"], observe_at=observe, hook_needed=None)))
G="fastvpinns/Geometry/geometry_2d.py"; F="fastvpinns/FE/fespace2d.py"; D="fastvpinns/data/datahandler2d.py"
MODELS=["fastvpinns/model/model.py","fastvpinns/model/model_hard.py","fastvpinns/model/model_inverse.py","fastvpinns/model/model_inverse_domain.py"]
PHYS=["fastvpinns/physics/poisson2d.py","fastvpinns/physics/cd2d.py","fastvpinns/physics/helmholtz2d.py","fastvpinns/physics/poisson2d_inverse.py","fastvpinns/physics/cd2d_inverse.py","fastvpinns/physics/cd2d_inverse_domain.py"]
TUNE=["fastvpinns/hyperparameter_tuning/objective.py","fastvpinns/hyperparameter_tuning/optuna_tuner.py"]

prop("P01","Reading a mesh file gives exactly the mesh in it, or an error",
 "Reading a quadrilateral mesh file either raises an error or yields exactly the cells of the file (each once, in file order, corners counter-clockwise) and, for every boundary tag, refined points lying on exactly the edges that carry that tag, with the file's vertices as test points and in the visualisation grid. A missing, truncated, damaged or unreadable mesh file or a full disk is never silently accepted, and no earlier read or failed read changes the result of a later one.",
 ["inputs","fault_sequences","histories"],"all valid quadrilateral meshes (any vertex, cell, edge and section order, orientation, tags, refinement, sampling method), every damage to the input file and every disk failure while the grid is written, over histories of several reads by one or more geometry objects",
 "The tests read two fixed, healthy files once; section order, rotated edges, damaged files, full disks and the effect of one read on the next are never sampled.",
 [G],[("read_mesh","Geometry_2D.read_mesh"),("grid file","Geometry_2D.generate_vtk_for_test"),("test points","Geometry_2D.get_test_points")],["cell_points","bd_dict","mesh","external.vtk"],["return value of read_mesh","get_test_points","external.vtk"])
prop("P02","Every boundary datum sits on its boundary and has its own value",
 "For every random draw, the boundary samples of a generated rectangle lie on the side of their tag, within its limits, a quarter of the requested number (rounded down) per side and one in each of as many equal strata; the random samples of a mesh file's boundary lie likewise on the edges of their tag. The Dirichlet data handed to training pairs every one of these points, exactly once per tag, with the value of that tag's own boundary function at that point, for scalar and component-wise conditions, however often and in whatever order the data is requested, and every request of a space lists the points in the same order.",
 ["inputs","schedules","histories"],"every outcome of the random source including its extremes, every tag layout, number of points and limits, and every order and number of requests",
 "The samples are random, so a test sees one draw; the pairing only matters for boundary functions that differ between tags, and the tests use equal ones.",
 [G,F,D],[("internal sampling","Geometry_2D.generate_quad_mesh_internal"),("edge sampling","Geometry_2D.read_mesh"),("pairing","Fespace2D.generate_dirichlet_boundary_data(_vector)"),("tensors","DataHandler2D.get_dirichlet_input")],["bd_dict","boundary_points","bound_function_dict"],["return values of the mesh, space and data handler calls"])
prop("P03","Sensor observations stay with their locations",
 "Every sensor observation used for an inverse problem is paired with its own location: sampled sensors are inside the bounding box of the domain, stratified in both directions, nine tenths of the requested number, and carry the exact solution there; sensors taken from a table are whole rows of it (first three columns), in the requested number, and every row can be selected. This holds for every random draw and repetition, and a table or picture that cannot be read or written makes the call fail rather than return other data.",
 ["inputs","schedules","fault_sequences"],"every random draw including its extremes, every table (size, headers, extra columns, duplicates), repeated and interleaved requests, unreadable or truncated tables and unwritable working directories",
 "Sampling is random and the tests look only at shapes for one draw; file damage and the extremes of the random source are not exercised.",
 [F,D],[("sampling","Fespace2D.get_sensor_data"),("table","Fespace2D.get_sensor_data_external"),("tensors","DataHandler2D.get_sensor_data")],["mesh.points","numpy random state"],["return value of get_sensor_data (space and data handler)"])
prop("P04","Mesh preparation survives failed and killed attempts",
 "Preparing a rectangular mesh yields the full grid of counter-clockwise cells that tiles the rectangle, uniform test points including the corners, and, unless switched off, a visualisation grid on disk that covers exactly the rectangle - or raises an error. After an attempt that failed or was killed at any point, or with leftovers of other runs in the output folder, the next attempt in the same process or a new one succeeds and gives exactly what a first attempt in an empty folder gives.",
 ["crash_points","fault_sequences","histories","inputs"],"every point at which the process can die or the disk can fail during mesh preparation, every leftover in the output folder, and every sequence of attempts with differing limits, cell and test point numbers in one process",
 "Unit tests prepare a mesh once on a healthy disk; nothing kills or fails an attempt and retries, and the external mesh generator keeps process-wide state between attempts.",
 [G],[("grid","Geometry_2D.generate_quad_mesh_internal"),("grid file","Geometry_2D.generate_vtk_for_test"),("test points","Geometry_2D.get_test_points")],["gmsh global state","internal.msh","internal.vtk","external.vtk"],["return values","internal.vtk","get_test_points"])
prop("P05","A solution export is complete and correct, or fails loudly",
 "Exporting solution columns to a visualisation file either raises an error or leaves a complete file whose grid is that of the domain and whose named fields hold every value of the matching column, in order, to full precision. The domain's own grid file and all other files are never damaged (it may be overwritten on purpose), a mismatch between columns and names is refused without touching an existing file, and after any failure or kill a repeated export succeeds.",
 ["fault_sequences","crash_points","histories","inputs"],"every solution array and list of names, target file (fresh, existing, the grid file itself), disk failure, kill point, and sequence of exports",
 "The tests only provoke the column mismatch; no test reads an exported file back, and none meets a full disk, a kill or repeated exports.",
 [G],[("export","Geometry_2D.write_vtk"),("grid file","Geometry_2D.generate_vtk_for_test")],["internal.vtk","external.vtk","target file"],["exported file","exception raised"])
prop("P06","Saved figures show their own data and nothing else",
 "Each plotting helper saves a readable image under the documented name showing exactly the data, labels and titles it was given, on the documented scales (a mesh picture: every cell, quadrature point and boundary point; a cell-residual picture: every cell coloured by its own value), whatever was plotted, or failed to be saved, before it. A successful call leaves no figure open, and a save that fails is reported as an error.",
 ["histories","fault_sequences","inputs"],"every sequence of plotting calls and data, interleaved with disk failures and open user figures",
 "Plotting state is process-wide, so errors appear only in sequences of calls with failures in between; the tests check at most that a file exists.",
 ["fastvpinns/utils/plot_utils.py",F,G],[("curves and contours","plot_utils"),("mesh picture","Fespace2D.generate_plot"),("residual picture","Geometry_2D.plot_adaptive_mesh"),("sensor picture","Fespace2D.get_sensor_data")],["pyplot figure registry"],["figure contents at save time","image file","open figures"])
prop("P07","Seeded runs are reproducible whatever happened before",
 "A complete problem set-up and training run whose random generators were seeded gives bit-for-bit the same boundary samples, sensors, assembled tensors, initial weights, losses and predictions every time, in every process, whatever other work, failed work or object creation preceded it in that process. It depends on nothing but its inputs and the seeds: not on the clock, the hash seed, the process id, the memory layout, leftovers on disk or earlier problems.",
 ["histories","schedules","configurations"],"every configuration and seed, every preceding history of other set-ups, trainings, plots and failures, and every process environment (hash seed, working directory, leftovers)",
 "A test compares nothing across histories or processes; hidden dependence on earlier state shows only when the same run follows different histories.",
 [G,F,D]+MODELS,[("set-up","Geometry_2D, Fespace2D, DataHandler2D constructors"),("training","train_step of the four models")],["numpy, TensorFlow and Python random state","module and class level state"],["tensors, losses, weights, predictions"])
prop("P08","Problems living in one process do not influence each other",
 "Any number of problems set up and trained in one process, with their steps interleaved in any order and on any threads, give each exactly the results it gives when run alone. Inputs handed in by the user (dictionaries, arrays, tensors, lists) are never modified, models built from the same inputs share no trainable state, and modifying anything handed out by the finite element space afterwards changes no later result.",
 ["schedules","histories","configurations"],"every interleaving, at operation and at line level, of the set-up and training of several problems of all kinds, with shared or separate inputs, and every modification of values handed out",
 "Aliasing and shared state are invisible with a single object; the tests never hold two live problems, let alone interleave them.",
 [G,F,D]+MODELS,[("snapshots","Fespace2D.get_* accessors"),("parameter dictionaries","DataHandler2D.get_bilinear_params_dict_as_tensors, get_inverse_params"),("model state","model constructors")],["class and module level state","caller-owned containers"],["tensors, losses, weights, predictions, caller's inputs"])
prop("P09","Each training step follows the variational formulation",
 "Over any training history (changing penalty weight and coefficients, with or without learning rate decay, continuous or stepwise), each step of the four models reports the variational residual loss, boundary loss, sensor loss and their weighted total for the current network, and moves every trainable value - network weights and inverse parameters - by exactly one Adam update of that total at the scheduled learning rate. The residual is the one of the documented weak form for the chosen equation (diffusion, convection-diffusion-reaction, Helmholtz, and their inverse variants), with the chosen test functions, quadrature and cell mapping: mean of squares over the test functions, summed over all cells.",
 ["histories","configurations","inputs"],"every mesh, test function family and order, quadrature family and order, mapping, equation, model kind, precision, network shape, activation, and sequence of step arguments",
 "The tests train a few fixed configurations and compare a final error with a loose threshold, which wrong weights, schedules, coefficients or a frozen parameter pass.",
 MODELS+PHYS+[D,F,"fastvpinns/FE/FE2D_Cell.py","fastvpinns/FE/fe2d_setup_main.py"],[("step","train_step of the four models"),("residuals","pde_loss_* functions"),("assembly","DataHandler2D.__init__, Fespace2D.get_*")],["network weights","optimizer state","inverse parameters"],["returned losses","weights after the step"])
prop("P10","A failed training step changes nothing",
 "If a training step fails because user code (residual, hard constraint) or a supplied argument raises, the network weights, inverse parameters and optimiser state are those before the step, and training continued afterwards follows exactly the path it would have taken without the failed step. This holds wherever in the step the failure strikes, at the first step or any later one, and for any number of failures.",
 ["fault_sequences","histories"],"every step index, failing call, failure position, repetition and model kind",
 "No test injects a failure into a step and continues.",
 MODELS,[("step","train_step of the four models")],["network weights","optimizer state and step counter","inverse parameters"],["weights and losses after the failure"])
prop("P11","Training resumes exactly from a saved state",
 "Saving the weights or a checkpoint of a model at any step and loading it into a newly built model of the same configuration, in the same or another process, restores all of its training state: predictions, network weights, inverse parameters, optimiser moments and the position in the learning rate schedule. Training continued from there gives exactly the losses and weights of the uninterrupted run, however often it is interrupted and whatever steps the discarded model still took after saving.",
 ["crash_points","histories","configurations"],"every step at which a run is saved, killed and resumed (repeatedly), every model kind and configuration",
 "The tests never save or load; missing state (an untracked parameter, a schedule position) shows only after a resume.",
 MODELS,[("state","attributes tracked by the models"),("schedule","learning rate construction")],["network weights","optimizer slots and step counter","inverse parameters","checkpoint files"],["losses, weights and predictions after the resume"])
prop("P12","Tuning trials are independent and the best one is returned",
 "Under every interleaving of concurrent trials and after every crash and resume of a study, each completed trial is trained with exactly the hyperparameters suggested to it for the configured number of epochs, and its reported value is the relative L2 error of its own network on the test grid, the same as if it had run alone. The study is resumed rather than restarted, minimised, runs the requested number of trials, and the parameters returned are those of the best trial of all.",
 ["schedules","crash_points","fault_sequences"],"every interleaving of 1-4 concurrent trials at line level, every suggestion, every kill point followed by a resume, and trials that fail",
 "The tuner is not covered by any test, and races between trials need particular schedules.",
 TUNE,[("trial","objective.objective"),("study","OptunaTuner.run"),("placement","OptunaTuner.objective_wrapper")],["shared output folder","study storage"],["trial values","returned parameters","network of each trial"])
prop("P13","Trials are placed on devices that exist, evenly",
 "On a machine with any number of accelerators, including none, every trial runs on exactly one existing device (the processor when there is none), consecutive trials take the accelerators in turn, and no more trials run at once than there are accelerators or than the user allowed. This holds for every interleaving, failure and resume, and the placement of one trial never leaks into another.",
 ["schedules","configurations","fault_sequences"],"0-5 simulated accelerators, every allowed number of concurrent jobs, trial counts, interleavings, failing trials and resumes",
 "No test runs the tuner, and machines with no or several accelerators are not available to tests.",
 TUNE[1:],[("placement","OptunaTuner.objective_wrapper"),("concurrency","OptunaTuner.run")],["list of accelerators","trial numbers"],["device scope during each trial","number of simultaneously running trials"])
prop("P14","Observing a problem between training steps does not disturb its training",
 "Whatever a user does with a problem between training steps other than training it - predicting, evaluating errors, plotting, exporting, saving weights or checkpoints, reading configuration or summary, requesting boundary data, test points, sensors, parameters or cell data again, evaluating the residual - changes neither network, parameters, optimiser nor training data, even if the request fails. Training continues bit for bit as if nothing had been requested, repeated requests get the same answer, and nothing handed in is modified.",
 ["histories","fault_sequences","configurations"],"every sequence of requests before, between and after training steps, with requests that fail (full disk, missing folder, wrong arguments), for every model kind and configuration",
 "Tests train and then look once; that looking changes what is trained next, or what is seen next, shows only in interleaved histories.",
 [G,F,D]+MODELS+["fastvpinns/utils/plot_utils.py","fastvpinns/utils/compute_utils.py"],[("requests","Fespace2D, DataHandler2D and Geometry_2D accessors, write_vtk, plotting helpers"),("models","call, get_config, train_step of the four models")],["network weights","optimizer state","training tensors","inverse parameters"],["losses and weights of every step","answers of the requests"])
prop("P15","An interrupted experiment can simply be run again",
 "Running an experiment (the shipped example scripts: set-up, training, evaluation, export, saving) with given inputs and seed leaves the same results - saved weights, losses, predictions, errors, exported fields and pictures - as a first run in an empty folder, however many earlier attempts in that folder were killed or interrupted at any point, failed on a full disk or a missing input, or belonged to another configuration, in the same process or in others. An attempt not reported as failed has left all results, and they agree: the saved prediction and the exported solution are those of the saved network at the test points, and every epoch has its loss.",
 ["crash_points","fault_sequences","histories","configurations"],"every example script, configuration and mesh, every line at which an attempt can be killed or interrupted, every write that can fail, every leftover of other attempts, and every sequence of such attempts over one or several processes",
 "Tests run no complete experiment with its files, never in a folder with a past, and never after one that was killed.",
 [G,F,D]+MODELS+["fastvpinns/utils/plot_utils.py"],[("set-up","Geometry_2D, Fespace2D, DataHandler2D"),("training","train_step of the four models"),("results","write_vtk, plot_utils, model.save_weights")],["output folder","gmsh, TensorFlow and pyplot process-wide state"],["files in the output folder","exception raised"])
# --- not applicable to this family
prop("P20","Quadrature rules are exact to their degree",
 "For every order and both families, the quadrature weights and points integrate all polynomials up to the rule's degree exactly over the reference square.",
 ["inputs"],"every order and family","A test samples a few orders.",["fastvpinns/FE/quadratureformulas_quad2d.py"],[("rule","Quadratureformulas_Quad2D")],["weights and points"],["get_quad_values"])
prop("P21","Test functions and their derivatives are consistent",
 "For every family and order, the first and second derivatives reported for the test functions are the derivatives of the reported values, at every point of the reference square.",
 ["inputs"],"every family, order, point","A test samples a few orders and points.",["fastvpinns/FE/basis_2d_QN_Legendre.py","fastvpinns/FE/basis_2d_QN_Legendre_Special.py","fastvpinns/FE/basis_2d_QN_Chebyshev_2.py","fastvpinns/FE/basis_2d_QN_Jacobi.py"],[("basis","Basis2DQN*")],["none"],["value, gradx, grady, gradxx, gradxy, gradyy"])
prop("P22","Cell mappings, Jacobians and derivatives agree",
 "For every valid cell, the mapping from the reference square hits the corners, its Jacobian is the derivative of the mapping, and mapped first and second derivatives obey the chain rule.",
 ["inputs"],"every convex cell and reference point","A test samples a few cells.",["fastvpinns/FE/quad_affine.py","fastvpinns/FE/quad_bilinear.py"],[("mapping","QuadAffin, QuadBilinear")],["none"],["transformation methods"])
prop("P23","Error measures follow their definitions",
 "For every pair of arrays, the reported absolute and relative L1, L2 and maximum errors are those of the definitions, and the combined report agrees with the single ones.",
 ["inputs"],"every pair of arrays","A test samples a few arrays.",["fastvpinns/utils/compute_utils.py"],[("errors","compute_errors_combined")],["none"],["return values"])
prop("P24","Unsupported configurations are refused",
 "Every unsupported mesh type, cell type, order, family, mapping, index or data type is refused with an error before any result is produced.",
 ["configurations"],"every invalid configuration","Tests sample a few invalid values.",[G,F,"fastvpinns/FE/fe2d_setup_main.py",D],[("guards","constructors and accessors")],["none"],["exception raised"])
prop("P25","Training converges to the solution of the problem",
 "With adequate network, test functions and training length, the trained network approaches the exact solution of the boundary value problem, and inverse parameters approach their true values.",
 ["configurations","inputs"],"every well-posed problem","Tests sample a few problems with loose thresholds.",MODELS+PHYS,[("training","train_step")],["network weights"],["error of the prediction"])
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
with open("properties.jsonl","w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False)+"\n")
for p in P:
    assert len(p["title"])<=80,(p["id"],len(p["title"]))
