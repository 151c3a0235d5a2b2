import json,subprocess
log=subprocess.check_output(['git','-C','/repo','log','--format=%h %s','--reverse','28e050e..HEAD'],text=True).strip().splitlines()
prop={'detect the holes':'P04','find disjoint regions':'P25','bound steep':'P15','intersect geometries':'P15','keep touching':'P04','group elements':'P10','apply the fibre':'P21','report negative':'P13','mirror a Compound':'P14','accept zero':'P15','regenerate an':'P15','align the inner':'P14','include unconnected':'P25','drop the regions':'P15','keep the tolerance':'P15','use the resolution':'P15','do not dilate':'P15','mirror an assigned':'P14','keep valid control':'P15','place hole points':'P02','use valid operands':'P15','start a new ring':'P16','clt_rectangular':'P17','polygon_hollow':'P17','double_lift_core_b spaces':'P18','concrete_column_section raises':'P18','lift core and stairwell':'P18','warping and frame analyses use':'P22','refuse warping, plastic':'P20','calculate_frame_properties reports':'P20','to_fibre_section exports':'P21','to_fibre_section keeps':'P21','serialise calls':'P22','refuse to combine':'P25','plot_mesh colours':'P24','plot_stress_vector uses':'P24','nastran_box1':'P19','rectangular_hollow':'P17'}
ex={
'bound steep':'split_section lost the whole section for an almost vertical line beside the extreme fibre (so calculate_plastic_properties raised ZeroDivisionError)',
'intersect geometries':'a & b raised ValueError (instead of giving an empty geometry) for operands that touch along several edges or in several points without overlapping',
'find disjoint regions':'check_geometry_disjoint (and so the warping analysis) raised RecursionError for a chain of about 1000 touching regions',
'detect the holes':'a 100 m x 22 m box of plates around a 0.1-wide void in micrometres-like units (area 2e9 and above) was meshed with the void filled',
'keep touching':'rotating a CompoundGeometry of touching rectangles (T-junctions) by a general angle separated the regions along the shared edge',
'group elements':'two equal Material objects in different regions were reported as separate material groups with wrong shared-node averages',
'apply the fibre':'a material name equal to a keyword of the fibre file text (e.g. "Cell") rewrote the rest of the file',
'report negative':'solve_cgs_lagrange accepted solutions whose Lagrangian multiplier was large and negative',
'mirror a Compound':'CompoundGeometry.mirror_section("center") mirrored every region about its own box centre',
'accept zero':'shift_points(abs_x=0) was ignored',
'regenerate an':'shift_points kept a control point that had fallen outside the new outline, turned an automatic one into an assigned one, and dropped the tolerance',
'align the inner':'align_to((x, y), on="right"/"top"/"bottom", inner=True) used the wrong extent of the geometry',
'include unconnected':'a CompoundGeometry of a single region was reported disjoint (UserWarning / refused CGS solve; empty dilation)',
'drop the regions':'compound - other that swallows a region left an empty region and the Section was refused',
'keep the tolerance':'split_section, multi-region set operations and offsets dropped the geometry tolerance',
'use the resolution':'CompoundGeometry.offset_perimeter(amount>0) ignored resolution',
'do not dilate':'CompoundGeometry.offset_perimeter(amount>0) grew bars into the surrounding concrete, thin plates into their neighbours and walls into holes (overlapping regions)',
'mirror an assigned':'Geometry.mirror_section("center") left the assigned control point where it was',
'keep valid control':'CompoundGeometry.offset_perimeter(amount<0) discarded valid assigned control points',
'use valid operands':'| & ^ - with a CompoundGeometry whose regions share edges gave wrong regions (areas off by several per cent): the operand was an invalid MultiPolygon',
'start a new ring':'from_points merged two rings into one when the second starts at the vertex where the first is closed (e.g. the exported lists of regions sharing their first vertex)',
'clt_rectangular':'clt_rectangular_section placed layers of unequal thickness with gaps and overlaps',
'rectangular_hollow':'rectangular_hollow_section failed (Geometry generation failed) for a few per cent of calls with r_out = b / 2',
'polygon_hollow':'polygon_hollow_section failed with a GEOS topology error for about every third call whose inner radius reaches the inner apothem (documented to merge to a circle)',
'double_lift_core_b spaces':'inner pier bars of double_lift_core_b were placed over the whole pier instead of between pier face and central wall',
'concrete_column_section raises':'concrete_column_section raised ZeroDivisionError instead of the documented ValueError for fewer than 2 bars on a side',
'lift core and stairwell':'lift cores with two openings / stairwells: outlines whose coordinates differed by a rounding produced sliver regions or failed set operations',
'warping and frame analyses use':'re-meshing the geometry after building a Section made its warping/frame analysis use another mesh (wrong results or IndexError)',
'refuse warping, plastic':'after calculate_frame_properties only, warping, plastic and stress analyses were not refused with the documented RuntimeError (TypeError, or a wrong message)',
'calculate_frame_properties reports':'a frame analysis that failed while solving left get_j() == 0.0 available',
'to_fibre_section exports':'to_fibre_section(Section) exported the current mesh of the geometry, not the one of the section','to_fibre_section keeps':'the tag list of to_fibre_section exceeded max_width, and could end in a line continuation',
'plot_mesh colours':'plot_mesh(mask=...) of a composite section coloured the remaining elements with the colours of other materials',
'plot_stress_vector uses':'plot_stress_vector of a composite section gave each material its own colour range, the colourbar showing that of the last material only',
'refuse to combine':'geometry + x with x not a geometry silently dropped x instead of raising the documented ValueError',
'serialise calls':'warping analyses in concurrent threads crashed the interpreter (segmentation fault in the shared pardiso solver) or mixed up each other solutions',
'nastran_box1':'nastran_box1 gave the left wall thickness dim_6 and the right wall dim_5 (documented: dim_5 left, dim_6 right)',
'place hole points':'a ring with a disjoint region inside its void placed the hole point in that region: the region vanished from the mesh and the void was filled',
}
out=[]
for l in log:
    h,m=l.split(' ',1)
    k=[k for k in prop if m.startswith('fix: '+k)]
    assert len(k)==1,(l,k)
    out.append(dict(status='fixed',property=prop[k[0]],commit=h,what=ex[k[0]]+f'',note=f"fixed: property={prop[k[0]]} {h} {ex[k[0]]}"))
F=[('P15','setop/compound-or-material','CompoundGeometry | other gives every region the material of other (or the default material) instead of the materials of the operand regions'),
('P15','setop/compound-and-material','CompoundGeometry & other gives every region the material of other (or the default material) instead of the materials of the operand regions'),
('P15','setop/compound-xor-material','CompoundGeometry ^ other gives every region the material of other (or the default material) instead of the materials of the operand regions'),
('P15','offset-compound/where-interior-positive','CompoundGeometry.offset_perimeter(amount > 0, where="interior") dilates the exterior'),
('P15','offset-compound/where-interior-negative','CompoundGeometry.offset_perimeter(amount < 0, where="interior") does not shrink the holes'),
('P15','offset-compound/where-all-positive','CompoundGeometry.offset_perimeter(amount > 0, where="all") does not shrink the holes'),
('P15','offset-compound/corner-junction','CompoundGeometry.offset_perimeter(amount > 0) leaves a notch where two regions meet at a convex corner of the section'),
]
try: F+= [tuple(x) for x in json.load(open('/verif/tools/findings_extra.json'))]
except FileNotFoundError: pass
for p,k,w in F: out.append(dict(status='finding',property=p,key=k,what=w))
open('/verif/known_findings.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in out))
