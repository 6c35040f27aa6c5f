"""Writes known-findings.json (run by hand; the output is committed)."""
import json, os
fixed = [
 ("P02","4b208b9","lhs boundary samples of an external mesh edge were drawn in the edge's bounding box, i.e. off any edge that is not parallel to an axis"),
 ("P01","009a8dd","boundary tags were taken from the quadrilaterals when the file lists Quadrilaterals before Edges"),
 ("P04","bd15734","a failed internal mesh generation left gmsh initialised; the next attempt in the process failed with 'GEO curve with tag 1000 already exists'"),
 ("P06","1eb11a9","plot_adaptive_mesh raised ValueError (colorbar without axes) with every supported matplotlib"),
 ("P06","85ea105","figures of generate_plot, get_sensor_data and plot_adaptive_mesh were never closed"),
 ("P06","f3b5167","generate_plot raised IndexError for meshes with 16 or more boundary ids"),
 ("P09","aaa7755","pde_loss_cd2d (inverse) did not accept the keywords DenseModel_Inverse passes: TypeError at the first step"),
 ("P08","2065a24","get_bilinear_params_dict_as_tensors and get_inverse_params overwrote the values of the caller's dictionary"),
 ("P08","0a74304","DenseModel_Inverse stored its variables in the caller's dictionary: a second model built from it hijacked the first one's parameters"),
 ("P09","c9d386c","the staircase flag of the learning rate settings was ignored (all four models)"),
 ("P12","92055d7","concurrent trials raced on creating the shared output folder (FileExistsError)"),
 ("P13","76abfc4","the tuner divided by zero on a machine without a GPU"),
 ("P05","9262f85","an export onto a grid file without point data or with another number of points silently wrote an invalid file"),
 ("P04","8e00b71","the mesh object of an internal mesh held coordinates where meshio expects vertex numbers"),
 ("P09","f60aabd","float64 models were evaluated at inputs rounded to float32"),
 ("P09","f03044e","hard constraints of double precision models failed when the model was built"),
 ("P09","db7d84e","DenseModel_Inverse_Domain could not be created with attention"),
 ("P10","b83ceb8","a model could not be trained any more after its first step had failed while it was traced"),
 ("P13","1611b8c","with the default n_jobs=-1 the tuner ran one trial per processor instead of one per accelerator at once"),
 ("P10","9a1c313","a step that failed while its graph was executed advanced the optimizer"),
 ("P09","1cc0709","double precision models with attention were evaluated and trained in single precision"),
 ("P04","1cc8d35","an interrupt before gmsh was closed made every later mesh preparation of the process fail (GEO curve with tag 1000 already exists)"),
]
d = {"findings": [], "fixed": [f"fixed: property={p} {c} {w}" for p, c, w in fixed]}
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
json.dump(d, open("known-findings.json", "w"), indent=1)
