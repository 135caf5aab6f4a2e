"""Writes known_findings.jsonl (every defect found was repaired; 'fixed' entries suppress nothing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = """
C18 d636ae0 angle between (anti)parallel vectors was NaN when rounding pushed the cosine past 1
C07 3713ed5 drawing error surfaces flipped the axes of the fit in place
C02 04c997f rake and dip direction of an exactly horizontal plane were NaN
C09 a2d88cc a rejected group left some of its members pointing to it
C09 752840c create_groups lost track of existing group membership
C18 9105cf8 rotation between vectors used an elementwise instead of a matrix exponential
C18 1db8232 conversion from spherical coordinates swapped x and y
C17 8458a20 conic major axes and slice bases were wrong for anything but spheres
C20 bb6f881 text fields with quotes, backslashes or markup broke the notebook widget
C20 9e68904 link to the javascript library used in notebooks pointed to a moved directory
C12 f4bebc4 regression on a 3 x n array centred along the wrong axis
C18 07659f7 fit_angle ignored its degrees argument
C16 4b9adea hyperbolic errors of a two-dimensional fit failed without explicit axes
C22 4cc8cf0 centroid of a group of planes used an undefined name
C21 3dd6bc3 DEM extraction relied on mutable geometries removed in shapely 2
C21 2789df2 elevations of lines near the edge of the extraction window were clamped
C24 b796b68 bootstrapped error comparison failed on an undefined name
C08 9eccdd8 recovering the saved fit of exactly planar data gave NaN axes
C14 75e3821 iterative error surfaces of exactly vertical planes swapped the sheets
C18 ad0d39e rotation between nearly opposite vectors used a cross product of rounding noise
C17 5bbd40d hyperboloids of two sheets were classified as ellipsoids
C17 4c628e0 angle subtended from a viewpoint other than the origin measured the offset from the origin
C22 1c61bd0 convolveAxes scaled rows instead of columns and was not the inverse of deconvolveAxes
C01 c41fc2b explained variance was computed from the error covariance (cubes of the singular values)
C21 1aa823f elevations interpolated from an integer raster were rounded to whole numbers
C27 3b4162d mean of the raw points of a plane was computed with a shadowed function
C28 6a807aa drawing a plane whose axes point down flipped the axes in the caller's data
C28 7522f0a planes and ellipses wrote their defaults into the caller's options, so options used twice drew in the wrong place and colour
C28 4a65a2a with several stereonets on a page only the last one could be dragged
C31 c7d5856 the rectangular stereonet kept what it had drawn for earlier data
C31 54d15d0 dip azimuth labels called north 360 degrees
C16 3b5bc17 conjugate conics with the inverse hyperbola failed on an undefined name
C30 c04925a the notebook interface used this before calling its parent constructor
C30 d8e2844 the stereonet zoomed to a selection did not follow changes of the selection
C30 f2a2f5a traces and highlights vanished when redrawn, their geometry replaced by the measurement
C28 7df399a labelling a vertical net changed the caller's label options
C27 e3787ab the side view took the wrong quantity for its horizontal extent and drew everything at NaN
C27 080858b the group mark of the side view stayed behind when redrawing put the measurements in another order
C28 1d0eb12 nets clipped at wide angles were larger than their frame
"""
with open(os.path.join(V, "known_findings.jsonl"), "w") as f:
    for l in F.strip().splitlines():
        p, c, what = l.split(" ", 2)
        f.write(json.dumps(dict(status="fixed", property=p, commit=c, what=what,
            text="fixed: property=%s %s %s" % (p, c, what))) + "\n")
