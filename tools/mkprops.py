"""Writes properties.jsonl (kept as a script so the statements can be read and edited as text)."""
import json, os
P = []

def p(id, title, statement, over, qtext, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
        why_tests_cant=why,
        anchors=dict(files=files, state=[dict(zip(("name", "meaning", "where"), s)) for s in state],
                     mechanism=[dict(zip(("name", "where"), m)) for m in mechanism],
                     observe_at=observe, hook_needed=None)))

p("C01", "A fit is the total-least-squares plane of its points",
  "For any array of at least three 3-D points, whatever its numeric type or memory layout, the fitted plane passes through the centroid and no other plane has a smaller sum of squared perpendicular distances; its unit normal points upward and its principal axes are orthonormal, ordered by decreasing spread and mutually uncorrelated. "
  "Centre, centred points, singular values, eigenvalues (variance along each axis with n-1), explained variance (the share of the total variance along the two in-plane axes), residuals, despun coordinates and left singular vectors reported with the fit are those of the same decomposition and reproduce the input. "
  "Fewer than three points are rejected with a value error; 2-D point sets are fitted by a line with the same guarantees.",
  ["inputs"], "every finite point cloud of rank >= 2 (n from 3 to tens of thousands, any attitude, noise, offset, scale, dtype, memory order)",
  "Tests fit a handful of random, well-conditioned float64 clouds and compare a few numbers; least-squares optimality and the decomposition identities must hold for every cloud, including exactly planar, vertical, duplicated, offset and integer ones.",
  ["attitude/orientation/pca.py", "attitude/coordinates/__init__.py"],
  [("singular value decomposition of the centred data", "attitude/orientation/pca.py: __run_svd"), ("normal orientation", "attitude/orientation/pca.py: __compute_derived_parameters")],
  ["attributes and methods of a fit returned by Orientation(points)"])

p("C02", "Strike, dip, dip direction and rake describe the fitted plane",
  "For every fit, strike is in [0,360], dip in [0,90], the strike line is the horizontal line of the plane with the plane dipping to its right (right-hand rule), the dip direction is 90 degrees clockwise of strike, and all of them match the fitted normal; data generated on a known plane recover that plane's strike and dip. "
  "Rake is the angle in [0,180] between the up-dip direction and the fit's longest axis. "
  "Every angle is a finite number also for exactly horizontal and exactly vertical planes, and does not depend on whether the decomposition came out upside down.",
  ["inputs"], "every attitude, including horizontal, vertical, cardinal strikes and dips within 1e-7 degrees of 0 and 90, and both orientations of each axis",
  "Tests check one or two fixed attitudes; quadrant, wrap-around, sign and degenerate-attitude behaviour depends on the sign pattern of the decomposition, which the caller cannot control.",
  ["attitude/orientation/pca.py", "attitude/orientation/base.py", "attitude/geom/util.py"],
  [("strike/dip from the normal with quadrant repair", "attitude/orientation/pca.py: strike_dip"), ("rake", "attitude/orientation/pca.py: _rake"), ("dip direction", "attitude/orientation/base.py: dip_direction")],
  ["strike_dip, dip_direction, rake, strike_dip_rake, gradient, repr of a fit"])

p("C03", "Fits do not depend on the frame, units or order of the data",
  "Translating the points, changing length units, reordering or replicating points, changing memory layout or applying uniform axis weights leaves the plane, axes and strike/dip/rake unchanged (lengths scale with the units; angular errors are unchanged, and never grow when the data are replicated). "
  "Rotating or mirroring the points rotates or mirrors the plane with them, and a rotation about the vertical shifts strike by exactly that angle. "
  "Per-axis weights give the axes that fitting the data divided by those weights would give.",
  ["inputs", "configurations"], "every well-posed cloud and every translation, scale, permutation, rotation, mirror image, replication, weight vector",
  "Equivariance relates two runs on arbitrary inputs; the suite has one rotation test on one data set.",
  ["attitude/orientation/pca.py", "attitude/coordinates/__init__.py", "attitude/error/axes.py"],
  [("centring", "attitude/coordinates/__init__.py: centered"), ("weights", "attitude/orientation/pca.py: __run_svd")],
  ["pairs of fits of related data"])

p("C04", "Error-axis lengths follow the documented statistics at every confidence level",
  "For every fit, sample size and confidence level the error axes are |variance - z*error| in the plane and variance + z*error along the normal, where z is the F(2, n-2) quantile (or the chi-square(2) quantile when asked for) and error is 2*sqrt(variance*normal variance/(n-2)) for the noise model (the default) or variance*sqrt(2/(n-1)) for the sampling model. "
  "The option to use the variance of the mean divides only the normal variance by n-1, the alternative Francq and Babamoradi estimators follow their formulas, and the plane/normal error conversions are inverse to each other. "
  "Asking for the error axes never changes what any later request returns.",
  ["inputs", "configurations", "histories"], "every fit, n >= 3, confidence level in (0,1), method and option, in any order of requests within a process",
  "Tests evaluate one or two levels on one fit with loose tolerances; the value must be right for every (n, level, method, option) combination.",
  ["attitude/error/axes.py", "attitude/error/__init__.py", "attitude/orientation/pca.py"],
  [("noise and sampling covariance", "attitude/error/axes.py"), ("Fisher scaling", "attitude/error/axes.py: fisher_statistic, statistical_axes, apply_error_scaling")],
  ["noise_axes, sampling_axes, statistical_axes, hyperbolic_axes, francq_axes, babamoradi_axes, fisher_statistic, fit.hyperbolic_axes"])

p("C05", "Angular errors are bounded, ordered, monotone and consistent with the error axes",
  "The two reported angular errors lie in [0,90] degrees, equal atan(sqrt(normal axis / in-plane axis)) of the reported error axes, the same in degrees and radians, and are independent of scale. "
  "The minimum error belongs to the longest axis and does not exceed the maximum whenever the data resolve the axes, exactly planar data have zero error, and errors grow with the confidence level and with the amplitude of the residuals.",
  ["inputs", "configurations"], "every cloud with any amount of noise, any pair of confidence levels, any amplification of the residuals",
  "Ordering and monotonicity relate several runs and must hold for arbitrary data; tests compare single values.",
  ["attitude/error/axes.py", "attitude/orientation/pca.py"],
  [("angular errors from hyperbolic axes", "attitude/error/axes.py: angular_errors"), ("reporting", "attitude/orientation/pca.py: angular_errors")],
  ["fit.angular_errors(), error.axes.angular_errors"])

p("C06", "The 95% error region contains the true plane at least 95% of the time",
  "When points are drawn from a plane with independent normal noise much smaller than the extent of the points and at least ten points are digitised, the true plane lies inside the reported default error region in at least 95% of repetitions, for every attitude, aspect ratio, sample size and noise level. "
  "The region is not vacuous: it excludes planes rotated by several times the reported angular errors.",
  ["inputs"], "every generating plane, aspect ratio, n >= 10 and noise level small against the extent; repeated sampling",
  "Coverage is a statement about the distribution over repeated sampling; no test samples repeatedly.",
  ["attitude/error/axes.py", "attitude/orientation/pca.py"],
  [("noise error axes with Fisher statistic", "attitude/error/axes.py: statistical_axes")],
  ["fit.axes and fit.hyperbolic_axes over repeated sampling"])

p("C07", "Asking, plotting and exporting never change a fit or the caller's data",
  "In any sequence of queries, error computations, plots, exports, groupings and conversions, the caller's arrays and every earlier result stay bit-for-bit what they were, and every query on a fit returns the same answer it returned before. "
  "In particular the identifier of a fit is stable over its life. "
  "What a query of a fit computed (error axes, covariance, principal axes, residuals, exports, error ellipses) belongs to the caller: overwriting it changes no later answer. "
  "All operations also work on read-only input arrays, never seed or reset the global random state, and only the bootstraps, which are random by nature, draw from it.",
  ["histories", "inputs"], "every sequence of public read-type operations on any set of fits, including upside-down decompositions",
  "Mutation shows only for some sign patterns and some orders of calls; tests never compare state before and after.",
  ["attitude/stereonet.py", "attitude/display/polar.py", "attitude/display/stereonet.py", "attitude/orientation/pca.py", "attitude/error/axes.py", "attitude/display/pca_aligned.py"],
  [("computations on copies", "attitude/stereonet.py"), ("lazy U", "attitude/orientation/pca.py: U")],
  ["snapshots of every array of every fit around each call; all query results over the history"],
  [("axes, singular_values, arr, array", "the fit", "attitude/orientation/pca.py")])

p("C08", "A saved fit can be recovered from its axes",
  "A fit rebuilt from the same points and the principal axes saved from an earlier fit equals that fit: same axes, singular values, normal, strike, dip, rake, errors, residuals and export up to rounding, for every data set including exactly planar ones, and also after the axes or the fit went through pickling, copying or text serialisation. "
  "Recovering does not need the decomposition to be repeated.",
  ["inputs", "histories"], "every cloud and every save/restore chain",
  "One test recovers one fit and compares a few fields.",
  ["attitude/orientation/pca.py", "attitude/orientation/base.py"],
  [("load saved fit", "attitude/orientation/pca.py: __load_saved_fit"), ("principal axes and identifier", "attitude/orientation/base.py: principal_axes, hash")],
  ["Orientation(points, axes=saved) against the original"])

p("C09", "Grouping keeps membership consistent over any sequence of requests",
  "After any sequence of grouping requests every measurement is in at most one group, each group lists its members in the order requested and each member points back to the one group listing it; unknown identifiers raise a key error, and grouping something already grouped or itself a group raises a grouping error, without any change to the caller's objects. "
  "By default the caller's list and objects are never modified, existing groups are carried over and point to the carried-over members, and no measurement is lost, duplicated or reordered. "
  "Disabling by identifier marks exactly the measurements named.",
  ["histories"], "every sequence of valid and invalid grouping, regrouping, copying and disabling requests over any set of measurements",
  "Consistency is an invariant over request histories; the suite makes one group once.",
  ["attitude/orientation/grouped.py"],
  [("create_groups", "attitude/orientation/grouped.py"), ("GroupedOrientation", "attitude/orientation/grouped.py"), ("disable_orientations", "attitude/orientation/grouped.py")],
  ["members, member_of, disabled, identifiers after each request, against a reference model"],
  [("member_of / members", "two-way membership links", "attitude/orientation/grouped.py")])

p("C10", "A group's fit is the joint fit of its members",
  "The fit of a group is the fit of its members' points after each member is centred on its own mean (or of the raw points when told they lie on one plane), so members translated arbitrarily relative to each other still give the same joint orientation, and a group of translated copies of one exact bed recovers that bed. "
  "The group's centre is the mean of all member points, its size the total number of points, and its strike, dip and errors follow the same rules as for a single fit; per-axis weights given for the group are those of the joint fit. A member's own fit is not changed by belonging to a group.",
  ["inputs", "configurations"], "every set of two or more measurements, any member sizes and relative translations, both modes",
  "One test groups one fixture.",
  ["attitude/orientation/grouped.py", "attitude/orientation/pca.py"],
  [("stacking of centred arrays", "attitude/orientation/grouped.py: GroupedOrientation")],
  ["group fit against the reference fit of the stacked data"])

p("C11", "Exports are strict JSON and say exactly what the fit says",
  "The mapping exported for any single, grouped or reconstructed plane can be serialised as strict JSON (no NaN or infinity) and read back, and its identifier, axes, error axes, angular errors, strike, dip, rake, disabled flag, centre, centred points, group and member identifiers are those of the plane at full double precision. "
  "Different planes have different identifiers. Values supplied by the caller are added or override without affecting the plane; members export their group's identifier and groups their members' identifiers. "
  "The compact export for other software carries the same axes and the requested error axes.",
  ["inputs", "histories"], "every plane including horizontal, vertical and exact ones, every set of overrides, before and after grouping or disabling",
  "No test exports anything.",
  ["attitude/orientation/base.py", "attitude/orientation/pca.py", "attitude/orientation/grouped.py", "attitude/error/__init__.py"],
  [("to_mapping", "attitude/orientation/base.py, pca.py, grouped.py"), ("pca_to_mapping", "attitude/error/__init__.py")],
  ["json.loads(json.dumps(mapping, allow_nan=False)) against the fit"])

p("C12", "Linear regression is ordinary least squares with its uncertainty",
  "For any points not all on one vertical plane, given as rows or as columns, the regression returns the ordinary-least-squares plane of z on x and y of the centred data, with predictions and residuals that satisfy the normal equations, and a coefficient covariance equal to the residual sum of squares times the inverse normal matrix (zero for three points). "
  "The linear orientation built on it reports the strike and dip of that plane (right-hand rule, agreeing with the plane fit on exact data), and its error ellipse at any level is the corresponding contour of the covariance; the strike-dip figures draw that contour in degrees, one per level asked for.",
  ["inputs"], "every cloud of n >= 3 points with non-degenerate horizontal extent, both array orientations, every level",
  "The regression tests in the suite do not pass even at baseline; nothing checks the estimates.",
  ["attitude/orientation/linear/regression.py", "attitude/orientation/linear/__init__.py", "attitude/orientation/base.py", "attitude/error/ellipse.py", "attitude/display/plot/__init__.py"],
  [("normal equations", "attitude/orientation/linear/regression.py"), ("linear orientation", "attitude/orientation/linear/__init__.py"), ("error ellipse", "attitude/error/ellipse.py, attitude/orientation/base.py")],
  ["Regression and LinearOrientation results against an independent least-squares solution"])

p("C13", "A plane reconstructed from angles has exactly those angles",
  "A plane rebuilt from strike, dip, rake and two full angular errors has the upward unit normal of that strike and dip, orthonormal axes with the normal last, one in-plane axis along the line with the given rake, and error lengths whose full opening angles are the given errors, scaled by the requested normal error. "
  "It reports back the strike, dip, rake and errors it was given, for every quadrant, horizontal and vertical planes included, and drawing it or exporting it uses these axes.",
  ["inputs"], "every strike in [0,360), dip in [0,90], rake in [0,180], errors in (0,180), normal error > 0",
  "Two tests check one attitude each.",
  ["attitude/orientation/reconstructed.py", "attitude/coordinates/rotations.py"],
  [("pole and rake vectors", "attitude/orientation/reconstructed.py: ReconstructedPlane.__init__")],
  ["normal, axes, hyperbolic_axes, covariance of a reconstructed plane"])

p("C14", "Girdle error surfaces bracket the nominal plane exactly",
  "For any orthonormal axes and error lengths, the nominal girdle is the great circle of the plane and the upper and lower girdles are closed curves made of directions whose offset along the normal is exactly twice the normal error length (times the level) relative to the in-plane error ellipse, the upper one on the upper side of the plane and the lower one its mirror image, whichever way up the axes are. "
  "Both layouts and the vectorised and iterative forms describe the same directions, the requested number of samples is returned, errors scale with the level, and the bundle of surfaces contains the nominal, upper and lower girdle for every level asked for.",
  ["inputs", "configurations"], "every axes orientation and sign, error lengths over many decades, level, sample count, layout",
  "Tests compare two implementations on one random fit; the geometric meaning is never checked.",
  ["attitude/stereonet.py", "attitude/orientation/pca.py"],
  [("plane_errors, iterative_plane_errors, error_coords", "attitude/stereonet.py")],
  ["returned longitude/latitude pairs converted back to vectors in the axes frame"])

p("C15", "Pole error rings are the exact dual of the girdle surfaces",
  "For any orthonormal axes and error lengths, every direction on the pole error ring is perpendicular to the tangent plane of the girdle surface: in the axes frame it satisfies (a*p)^2+(b*q)^2=(2c)^2 for normalised slopes p, q and error lengths a, b, c, and the ring is centred on the upward nominal pole whichever way up the axes are. "
  "Vectorised, iterative, both-layout and polar-plot forms describe the same ring, and the ring never depends on previous calls.",
  ["inputs", "configurations"], "every axes orientation and sign, error lengths, sample count, layout",
  "One test compares two implementations on one fit.",
  ["attitude/stereonet.py", "attitude/display/polar.py"],
  [("normal_errors, iterative_normal_errors", "attitude/stereonet.py")],
  ["returned longitude/latitude pairs converted back to vectors in the axes frame"])

p("C16", "Cross-section error envelopes are the hyperbola of the error axes",
  "For any error axes and any vertical or oblique section, the section's nominal trace is a straight line through the given centre, and the upper and lower bounds lie symmetrically about it at distance sqrt(b*(1+x^2/a)) from it, where a and b are the effective squared lengths of the hyperboloid in the section; they never cross and open to the asymptotic angular error. "
  "Two-dimensional and three-dimensional requests agree, means and the apparent-dip rotation move the whole figure rigidly, and parametric conics (ellipse, hyperbola) satisfy their defining equation; the figure of conjugate conics shows the hyperbola between its asymptotes, and the ellipse of normals touching the lines perpendicular to them.",
  ["inputs", "configurations"], "every axes triple, section basis, distance range, mean, 2-D/3-D form",
  "Tests compare two special sections on one random fit.",
  ["attitude/display/hyperbola.py", "attitude/display/parametric.py", "attitude/display/plot/cov_types/regressions.py", "attitude/geom/conics.py"],
  [("hyperbolic_errors, hyperbola_values, HyperbolicErrors", "attitude/display/hyperbola.py"), ("parametric conics", "attitude/display/parametric.py")],
  ["returned curves against the conic equation"])

p("C17", "Conic algebra obeys the geometry of quadrics",
  "For any ellipse, ellipsoid or hyperboloid: points on the surface satisfy its equation, translation and linear transformation move every point of the surface as stated and compose and invert, the centre is the centre of symmetry, the major axes end on the surface and are mutually perpendicular, containment agrees with the equation, poles and polar planes are inverse to each other, the dual of the dual is the conic, and conics are classified as elliptical or hyperbolic correctly. "
  "Slices lie in the slicing plane and on the quadric, and the projection seen from any outside viewpoint consists of points of tangency; the angle subtended by a sphere or by an ellipsoid displaced along an axis is the true half-angle.",
  ["inputs"], "every non-degenerate quadric in two and three dimensions, every affine map, plane and viewpoint",
  "Tests use unit spheres at one position.",
  ["attitude/geom/conics.py", "attitude/geom/util.py"],
  [("Conic", "attitude/geom/conics.py"), ("Plane, perpendicular vectors", "attitude/geom/util.py")],
  ["results of Conic operations against direct evaluation on sampled points"])

p("C18", "Angles, rotations and coordinate conversions are exact inverses and isometries",
  "Angles between vectors and between fits are the true angles in [0,180] degrees (never NaN, also for parallel, opposite and equal inputs, in either unit), rotations between vectors are proper rotations taking one onto the other, plane rotation matrices rotate by their angle, and spherical, stereonet and Cartesian conversions are inverse to each other and preserve directions. "
  "Hessian-normal, offset and perpendicular-vector helpers satisfy their defining equations.",
  ["inputs"], "every vector pair including parallel and opposite ones, every angle, every direction",
  "Tests on these helpers are absent or fail at baseline.",
  ["attitude/geom/util.py", "attitude/geom/__init__.py", "attitude/geom/transform.py", "attitude/coordinates/__init__.py", "attitude/coordinates/rotations.py", "attitude/stereonet.py", "attitude/orientation/base.py"],
  [("angle", "attitude/geom/util.py"), ("transform, from/to_stereonet, cartesian", "attitude/coordinates/rotations.py"), ("spherical/cartesian", "attitude/coordinates/__init__.py")],
  ["returned values against direct vector algebra"])

p("C19", "What is drawn is the plane that was fitted",
  "Every plot puts its geometry where the numbers say: stereonet pole rings enclose the pole and girdle bands enclose the great circle of the plotted plane, polar plots are centred at (dip direction, dip), map features have the outlines of the corresponding error surfaces, aligned plots and error comparisons show the despun data with the error hyperbolas of the stated method. "
  "Styling options are passed on, nothing but the requested axes is drawn on, and a plane given by angles is drawn like the equivalent reconstructed plane.",
  ["inputs", "configurations"], "every fit or angle set, drawn on any axes with any styling, in any order",
  "Image tests cover one fixed figure each and one of the two does not pass.",
  ["attitude/display/stereonet.py", "attitude/display/polar.py", "attitude/display/cartopy.py", "attitude/display/pca_aligned.py", "attitude/display/error_comparison.py", "attitude/display/hyperbola.py", "attitude/orientation/reconstructed.py"],
  [("girdle_error, pole_error, uncertain_plane", "attitude/display/stereonet.py"), ("polar pole_error, pole", "attitude/display/polar.py")],
  ["artists added to recording axes; polygons handed to map features"])

p("C20", "Notebook widgets receive exactly the planes that were passed",
  "For any list of fits or plain mappings, or a single one, the notebook output is a script that any browser can parse and run, which calls the viewer once with the element created for it and data equal to the exported mappings, whatever characters names and other text fields contain. "
  "Each output uses its own element, and the viewer library is delivered once per session before it is needed (a delivery that failed is made up for by the next request).",
  ["inputs", "histories"], "every list of planes and every text value (quotes, backslashes, newlines, markup, unicode)",
  "No test produces notebook output.",
  ["attitude/display/nbextension.py"],
  [("plot_interactive, init_notebook_mode", "attitude/display/nbextension.py")],
  ["the HTML displayed, executed by a JavaScript engine"])

p("C21", "Extracted coordinates are the terrain under the digitised shape",
  "For any georeferenced raster and any line, multi-line, point or polygon on it, the extracted coordinates lie on the digitised line (in order, with its vertices) or are exactly the pixel centres inside the polygon, and each elevation is the raster value there (bilinear between pixel centres for lines), for any affine georeferencing including rotated rasters and windows touching the edges. "
  "On a planar raster the result is exactly that plane, so fitting it recovers the raster's attitude; invalid pixels never appear in the result and the input geometry is untouched.",
  ["inputs"], "every raster size, affine transform, dtype, no-data pattern and geometry inside the footprint",
  "The module could not even be imported at baseline; nothing tests it.",
  ["attitude/helpers/dem.py", "attitude/helpers/interpolation.py"],
  [("extract_shape, extract_line, extract_area", "attitude/helpers/dem.py"), ("bilinear", "attitude/helpers/interpolation.py")],
  ["coordinates returned for in-memory rasters whose values are a known function of position"])

p("C22", "The JavaScript viewer draws the same error surfaces from the exported data",
  "For any exported axes and error axes (or strike, dip, rake and angular errors), the front end's nominal girdle is the plane's great circle, its upper and lower girdles are offset by the normal error relative to the in-plane error ellipse on the correct side, and its normal ellipses are the exact dual of the girdles, for both layouts, both hemispheres, every sample count and level. "
  "Error-surface features contain the nominal plane, ellipse features contain the pole, axis convolution and deconvolution are inverse, and group centroids are the weighted or mid-range centres of their members.",
  ["inputs", "configurations"], "every fit exported, every option of the drawing functions",
  "The front-end tests need packages that are not installed and are not run.",
  ["frontend/packages/attitude/src/math.ts", "frontend/packages/attitude/src/functions.ts", "frontend/packages/attitude/src/util.ts"],
  [("planeErrors, normalErrors, combinedErrors", "frontend/packages/attitude/src/math.ts"), ("features", "frontend/packages/attitude/src/functions.ts")],
  ["functions of the bundled front-end sources run under node"])

p("C23", "Well-posed data never produce NaN, infinities or invalid operations",
  "On any well-posed cloud (noise present, three distinct spreads) every public query of a fit returns finite numbers without invalid-value, divide-by-zero or overflow floating-point events anywhere in the library, including for horizontal, vertical and very large, very small or far-offset data. "
  "Degenerate but legal data (three points, exactly planar points) yield finite orientation, explained variance and errors as well.",
  ["inputs"], "every well-posed or exactly planar cloud, all query methods",
  "Floating-point exceptions depend on rare alignments of data and axes; tests run with warnings ignored.",
  ["attitude/orientation/pca.py", "attitude/error/axes.py", "attitude/geom/util.py", "attitude/stereonet.py"],
  [("derived parameters", "attitude/orientation/pca.py")],
  ["numpy floating-point error events and values returned"])

p("C24", "Resampling bands are percentiles of refits of resampled data",
  "Bootstrap helpers call the estimator exactly once per replicate with data of the original shape: resampled rows all come from the data, and noise replicates add independent zero-mean noise of the requested size to all coordinates or only to the last; every call draws afresh, the caller's data stay unchanged and the replicates are returned in order. "
  "Percentile intervals are the requested central percentiles along the requested axis, so that lower bounds never exceed upper bounds and wider intervals contain narrower ones; the bootstrapped error comparison draws such a band around the nominal fit.",
  ["inputs", "configurations"], "every data shape, estimator, replicate count, noise size, percentile",
  "Nothing tests these helpers.",
  ["attitude/display/plot/cov_types/regressions.py", "attitude/display/plot/cov_types/misc.py", "attitude/display/error_comparison.py"],
  [("bootstrap_resampled, bootstrap_noise", "attitude/display/plot/cov_types/regressions.py"), ("percentiles, ci", "attitude/display/plot/cov_types/misc.py")],
  ["arguments passed to the estimator; returned arrays"])

p("C25", "Fitting cost stays linear in the number of points",
  "Fitting, querying, exporting and drawing error surfaces of a cloud of hundreds of thousands of points needs memory and time proportional to the number of points, so full-resolution terrain extractions can be fitted on an ordinary machine. "
  "Error surfaces and angles of large clouds cost no more than those of small ones.",
  ["inputs"], "every cloud size up to hundreds of thousands of points",
  "Tests use at most a few thousand points and measure nothing.",
  ["attitude/orientation/pca.py", "attitude/orientation/grouped.py", "attitude/orientation/linear/regression.py"],
  [("thin singular value decomposition", "attitude/orientation/pca.py: __run_svd"), ("lazy left vectors", "attitude/orientation/pca.py: U")],
  ["peak resident memory and CPU time of a child process, against the size of the data"])

p("C26", "Fits computed concurrently equal fits computed alone",
  "When many threads of one process fit, query, export and compute error surfaces at the same time, on different or shared fits, each result is identical to the one computed alone, in any interleaving. "
  "Nothing depends on which other data sets were processed before or at the same time.",
  ["schedules", "histories"], "every interleaving of threads working on distinct and shared fits",
  "Tests are single-threaded and run each computation once.",
  ["attitude/orientation/pca.py", "attitude/error/axes.py", "attitude/stereonet.py"],
  [("no shared module state in computations", "attitude/orientation/pca.py, attitude/error/axes.py, attitude/stereonet.py")],
  ["results recorded per thread under forced rapid switching, compared with a sequential run"])

p("C27", "The viewer's side views show the true apparent dip",
  "For any exported plane, the front end's dip and dip direction are those of the plane, the apparent dip for any viewing azimuth is the angle of the plane's trace in that vertical section, projected lines and centres keep their true section coordinates, and angles are normalised to [-180,180]. "
  "Data and centre handed to the viewer are used as given, or computed as the mean of the raw points when absent. "
  "The notebook's side view of a set of measurements shows each of them once, the nearer over the farther, at its place in the section with one scale for both directions, inside the frame and against an elevation axis that reads elevations; members are marked and also shown with the plane of their group, digitised lines are drawn off the plane they belong to, hovered lines stand out and hovering is reported, all after any sequence of azimuths.",
  ["inputs", "configurations", "histories"], "every plane with an upward normal, every azimuth, every set of at least two measurements and their groups",
  "The front-end tests are not run.",
  ["frontend/packages/attitude/src/hyperbola.ts", "frontend/packages/notebook-ui/src/components/side-view.ts"],
  [("PlaneData.dip, apparentDip, fixAngle", "frontend/packages/attitude/src/hyperbola.ts"), ("SideViewComponent", "frontend/packages/notebook-ui/src/components/side-view.ts")],
  ["functions of the bundled front-end sources run under node"])

p("C28", "The viewer's stereonet shows every plane it is given, where it belongs",
  "Every plane handed to the interactive stereonet is drawn once, in order, bound to its datum and in the requested colour: its nominal trace is the plane's great circle, its error region and pole ellipses are those of its error axes, all under an equal-area projection centred in the view, with the size, clip angle and rotation asked for; a clipped net fills its frame up to the margin. "
  "After any sequence of rotations, recentrings and mouse drags everything drawn is that of the current view, nothing is lost or duplicated, listeners hear of each rotation, and direction and dip labels sit on the directions they name with those on the far side hidden; dragging turns the view by a third of a degree per pixel, never past vertical, only while the button is held on that net, and only if it is interactive, also with several nets on a page. "
  "Opacity by certainty never grows with angular error; the data and options handed over are never modified; calls made before the element exists are carried out once it does.",
  ["inputs", "histories", "configurations"], "every plane, way up and error shape, every sequence of view operations and drags",
  "The front-end tests are not run, and correctness of the picture depends on the sequence of interactions.",
  ["frontend/packages/attitude/src/stereonet/index.ts", "frontend/packages/attitude/src/stereonet/interaction.ts", "frontend/packages/attitude/src/stereonet/labels.ts", "frontend/packages/attitude/src/stereonet/vertical.ts", "frontend/packages/attitude/src/functions.ts"],
  [("drawPlanes, drawEllipses, __redraw, rotate, opacityByCertainty", "frontend/packages/attitude/src/stereonet/index.ts"), ("drag handling", "frontend/packages/attitude/src/stereonet/interaction.ts"), ("label placement", "frontend/packages/attitude/src/stereonet/labels.ts")],
  ["elements, attributes and data of a recording document after each step; mouse events delivered to it"])

p("C29", "The web application keeps the sheet as typed and plots exactly its orientations",
  "After any sequence of typing, pasting, adding rows, resetting and reloading, the sheet holds and shows what was typed, except that a row whose maximum error is below its minimum has the two exchanged; each cell is marked empty, valid or invalid accordingly. "
  "Every row whose five angles are numbers is plotted exactly once, in order, in its colour (grey without a valid one), and no other row is: its pole region (and its plane when asked) is that of the orientation and error cone given by strike, dip, rake and the two errors, in the current view, on both the full and the vertical clipped net with the chosen clip angle; less certain orientations are never drawn more opaque. "
  "The colour picker starts from the cell's colour and enters the colour picked.",
  ["inputs", "histories"], "every sequence of edits and view changes, every cell content",
  "The web application has no tests; what is shown depends on the history of edits.",
  ["frontend/packages/webapp/src/app.ts", "frontend/packages/webapp/src/sheet.ts", "frontend/packages/plots/src/vertical.ts", "frontend/packages/attitude/src/reconstruct.ts", "frontend/packages/notebook-ui/src/components/stereonet.ts"],
  [("constructOrientation, App", "frontend/packages/webapp/src/app.ts"), ("DataSheet, finalizeRow, addEmptyRows", "frontend/packages/webapp/src/sheet.ts"), ("buildPlot, translucentEllipseStyle", "frontend/packages/plots/src/vertical.ts"), ("reconstructErrors", "frontend/packages/attitude/src/reconstruct.ts")],
  ["sheet values, cell marks and drawn paths of a recording document after each step"])

p("C30", "The notebook interface shows, highlights and selects the right measurements",
  "After any sequence of hovering, leaving, clicking list entries, switching planes, poles and groups, zooming to the selection, clearing, dragging and viewing from above, the stereonet shows exactly the measurements (only the selection when zoomed), once each and in order, each as the trace, error region or pole region of its own axes in its own colour in the current view. "
  "Hovering a measurement highlights it, or its whole group, on the net and in the list, and the panel gives that measurement's identifier, strike, dip, errors and group size; clicking toggles selection, and the list, buttons and copied text agree with it. "
  "The measurements handed over are never modified.",
  ["inputs", "histories"], "every set of measurements and groups, every sequence of interactions",
  "The interface has no tests; its state depends on the history of interactions.",
  ["frontend/packages/notebook-ui/src/index.ts", "frontend/packages/notebook-ui/src/components/stereonet.ts", "frontend/packages/notebook-ui/src/components/list.ts", "frontend/packages/notebook-ui/src/components/data-panel.ts"],
  [("createUI, selection and hover state", "frontend/packages/notebook-ui/src/index.ts"), ("updatePlanes, updatePoles, updateHovered", "frontend/packages/notebook-ui/src/components/stereonet.ts"), ("list entries and buttons", "frontend/packages/notebook-ui/src/components/list.ts")],
  ["elements, attributes and data of a recording document after each step"])

p("C31", "Rectangular nets show exactly their planes; their labels read dip and azimuth",
  "Whatever sequence of data sets it is given, the rectangular stereonet shows exactly the planes of the last one, once each and in order, each as the pole region of its own axes and errors in its own colour (grey without one), less certain ones never more opaque, inside one frame, and never modifies them. "
  "Labels put along any line across any net sit on that line where it crosses a line of the graticule: every crossing is labelled, once, and each label reads the dip (or latitude) or the dip azimuth of that place in the current view, cardinal directions by their letters; text offset, rotation and titles are as set. A rectangular frame is drawn as asked and the net is centred in it.",
  ["inputs", "histories", "configurations"], "every sequence of data sets; every net, rotation, clip angle, graticule and label line",
  "The plot components have no tests; label values depend on the projection.",
  ["frontend/packages/plots/src/rectangular.ts", "frontend/packages/plots/src/graticule-labels.ts", "frontend/packages/attitude/src/stereonet/index.ts"],
  [("drawStereonet", "frontend/packages/plots/src/rectangular.ts"), ("getIntersections, render, formatAzimuthLabel", "frontend/packages/plots/src/graticule-labels.ts"), ("rectangular, setGraticule", "frontend/packages/attitude/src/stereonet/index.ts")],
  ["elements, attributes and data of a recording document after each step"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
