#!/usr/bin/env python3
"""Maintenance aid: writes the 'fixed' list of known_findings.json from /repo's fix: commits (not used by any check)."""
import json, subprocess, os
H = os.path.dirname(os.path.abspath(__file__))
MAP = [  # first match wins: words of the subject -> property
 ('circumcentre of triangles in accurate', 'C17'), ('closest point on a line in accurate', 'C17'), ('inward normal in accurate', 'C17'), ('point in polygon in accurate', 'C17'),
 ('growing a grid from splines', 'C32'),
 ('circumcentre of faces crossing', 'C09'), ('Casulli refinement', 'C10'), ('global mesh contains', 'C30'), ('geographic searches', 'C30'), ('four hanging', 'C25'), ('merge indicator', 'C25'),
 ('gridded samples', 'C09'), ('ridge refinement', 'C09'), ('stale search trees after removing', 'C13'), ('bounding box of a curv', 'C27'), ('transfinite grid from', 'C27'), ('range of spline points', 'C27'), ('fourth corner', 'C27'), ('centre of a triangle', 'C27'), ('disconnected regions', 'C25'), ('orthogonality and smoothness of an edited', 'C29'), ('flipping an edge', 'C17'), ('adding a mesh', 'C06'), ('offsetting several', 'C15'), ('snapping a part of', 'C15'), ('snapping one of', 'C15'), ('linear refinement of a polygon', 'C15'), ('polyline', 'C20'), ('projection of a mesh has been', 'C16'), ('spherical accurate projection', 'C16'), ('contacts with', 'C19'), ('single contacts', 'C19'), ('triangulation interpolation', 'C18'), ('averaging interpolation skips', 'C18'), ('inverse distance', 'C18'), ('inserting a face keeps', 'C22'), ('orthogonalizing a block', 'C22'), ('selecting polygon', 'C14'), ('inside another polygon', 'C14'), ('merging two nodes with many', 'C12'), ('deleting by polygon', 'C11'), ('minimum edge length', 'C12'), ('location trees', 'C13'), ('bounding box of the location', 'C13'), ('node mapping', 'C22'),
 ('bilinear', 'C04'), ('averaging', 'C04'), ('triangulating less', 'C04'), ('non-positive', 'C04'), ('reject', 'C04'), ('report', 'C04'), ('get_closest_node', 'C04'),
 ('reports', 'C04'), ('fails cleanly', 'C04'), ('raises an error', 'C04'), ('keep the existing contacts', 'C04'), ('search forever', 'C04'), ('restore the mesh when', 'C04'), ('failed orthogonalization', 'C04'), ('skip edges', 'C04'),
 ('administrate', 'C05'), ('redirect the nodes', 'C10'), ('isolated nodes', 'C22'), ('delete and merge', 'C12'), ('undo', 'C01'), ('undoing', 'C01'), ('keep the projection', 'C01')]
out = []
for l in reversed(subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines()):
    h, s = l.split(' ', 1)
    if not s.startswith('fix:'): continue
    p = next((p for w, p in MAP if w in s), 'C01')
    out.append('fixed: property=%s %s %s' % (p, h, s[5:]))
f = H + '/known_findings.json'
d = json.load(open(f)) if os.path.exists(f) else dict(findings=[])
d['fixed'] = out
json.dump(d, open(f, 'w'), indent=1); open(f, 'a').write('\n')
