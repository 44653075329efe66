# table of properties; executed by mk.py
REAL = 'floating point treated as real arithmetic'

prop('P01', 'Local time stepping groups are admissible and as large as possible',
     'For every mesh connectivity and every per-element time step, the element-to-group assignment of the mesh tool puts each element in the group whose time-step interval contains its time step, '
     'and the normalization then lowers groups only, until face-adjacent elements differ by at most one group, and no further than necessary (every assignment that satisfies the same rules is nowhere larger). '
     'The intervals start at the given fraction and grow by the given rates (the last one is unbounded), and the reported numbers of elements and loads per group are exactly those of the assigned groups.',
     ['inputs'], 'all element types, all numbers of elements, all adjacency tables, all time steps and interval limits',
     'The fixed point iteration depends on the numbering and connectivity of arbitrarily large meshes; tests sample a handful of elements.',
     ['tools/edge_v/src/time/Groups.cpp', 'tools/edge_v/src/time/Groups.h'],
     [('normalization sweeps', 'tools/edge_v/src/time/Groups.cpp: normalizeElTgs'), ('interval search', 'tools/edge_v/src/time/Groups.cpp: setElTg'),
      ('counting', 'tools/edge_v/src/time/Groups.cpp: nGroupEls')],
     observe='output arrays of the static functions',
     note='unbounded: loop invariants; maximality through a ghost assignment that is a lower bound of every result. ' + REAL)

prop('P02', 'Time steps of the mesh tool obey the CFL condition and are normalized',
     'For every mesh of every element type, every velocity model and every set of element diameters: the absolute minimum time step of the mesh tool is positive, is a lower bound of diameter over wave speed of all elements and is attained by an element. '
     'The relative time step of every element times the minimum is exactly the diameter of the element over its wave speed (the mean of its vertices or the value at the element), and thus at least one.',
     ['inputs'], 'all element types, all meshes, all wave speeds above zero, all diameters above zero',
     'A minimum over arbitrarily many elements and indirect vertex accesses; tests have a few elements.',
     ['tools/edge_v/src/time/Cfl.cpp'],
     [('time steps', 'tools/edge_v/src/time/Cfl.cpp: setTimeSteps and constructor')],
     observe='minimum time step and relative time steps of the constructed object',
     note='unbounded: loop invariants; element-based models for tetrahedra, vertex-based models for all element types; ' + REAL)

prop('P03', 'Geometry of mesh entities: volumes, in-diameters, centroids, normals',
     'For every non-degenerate entity: lengths, areas and volumes equal the Euclidean measure, the in-diameter is the diameter of the inscribed circle or sphere (the smallest extent of rectangular elements), and the centroid is the mean of the vertices. '
     'Normals have unit length, are orthogonal to the face and point away from the given normal point; the tangents have unit length and form a right-handed orthogonal system with the normal.',
     ['inputs'], 'all coordinates of non-degenerate lines, triangles, rectangles, tetrahedra and hexahedra; all normal points',
     'Identities over all real coordinates; tests use a handful of axis-aligned entities and tolerate a wrong orientation elsewhere.',
     ['tools/edge_v/src/geom/Geom.cpp', 'tools/edge_v/src/geom/Generic.cpp', 'tools/edge_v/src/geom/Line.cpp', 'tools/edge_v/src/geom/Tria3.cpp', 'tools/edge_v/src/geom/Quad4r.cpp', 'tools/edge_v/src/geom/Tet4.cpp', 'tools/edge_v/src/geom/Hex8r.cpp'],
     [('volumes', 'tools/edge_v/src/geom/Geom.cpp: volume'), ('in-diameters', 'tools/edge_v/src/geom/Geom.cpp: inDiameter'), ('centroids', 'tools/edge_v/src/geom/Geom.cpp: centroid'),
      ('normals and tangents', 'tools/edge_v/src/geom/Geom.cpp: normal, tangents')],
     observe='returned values', note=REAL)

prop('P04', 'Elements are oriented and their faces are numbered consistently',
     'For every element the normalization of the mesh tool permutes the vertices into counter-clockwise order (positive volume), and permutes faces and face-neighbors with them, so that every face still is the face of its vertices. '
     'For every mesh and face, the local face id of the neighbor addresses the adjacency back to the element, and the local vertex id selects the vertex of the neighbor that is the dominant vertex of the face.',
     ['inputs'], 'all coordinates and ids of triangles, rectangles and tetrahedra; all meshes and lists of faces for the neighbor ids',
     'All orderings and orientations of an element and all adjacency tables; tests use single elements.',
     ['tools/edge_v/src/geom/Tria3.cpp', 'tools/edge_v/src/geom/Quad4r.cpp', 'tools/edge_v/src/geom/Tet4.cpp', 'tools/edge_v/src/geom/Generic.cpp'],
     [('vertices and faces', 'tools/edge_v/src/geom/Geom.cpp: normVesFas'), ('local ids at the neighbor', 'tools/edge_v/src/geom/Geom.cpp: getFaIdsAd, getVeIdsAd')],
     observe='vertex, face and neighbor lists after the call', note='hexahedral normalization (std::sort) and periodic vertex partners are not covered; ' + REAL)

prop('P12', 'Sub-cell limiter: detection, projections and finite volume update',
     'For all solutions and meshes, a candidate is admissible exactly if no quantity leaves the range of its own and the adjacent previous solutions by more than the tolerance; projections to and from sub-cells apply their matrix, '
     'replace exactly the runs which need it and report the true extrema; '
     'the Lax-Friedrichs update of every sub-cell is own minus adjacent viscosity plus the central fluxes of its sub-faces (material of the neighbor across element faces, given net updates where provided), and is conservative across inner sub-faces. '
     'Super-cells are averaged, and the buffers of previous and current solutions alternate with the time steps.',
     ['inputs', 'configurations', 'sizes'], 'all reals; any number of vertex neighbors; triangle, rectangle and tetrahedral sub-grids of order two, one and two fused runs',
     'Detection reduces over any number of neighbors; the update sums dozens of terms whose ids encode side and material.',
     ['src/sc', 'src/impl/seismic/sc/Llf.hpp', 'src/data/MmVanilla.hpp', 'src/linalg/Matrix.h'],
     [('detection', 'src/sc/Detections.hpp: dmpVe, dmpFa'),
      ('projections', 'src/sc/Kernels.hpp; src/sc/init.inc: kernel setup'),
      ('update', 'src/impl/seismic/sc/Llf.hpp: tsSc, nuFaSf, llfIds, centralL; src/sc/ibnd/SuperCell.hpp: applyFa'),
      ('buffers', 'src/sc/Steering.hpp')],
     observe='admissibility, sub-cell averages, degrees of freedom', note='sub-grid tables are arguments; ' + REAL)

prop('P13', 'Linear slip weakening friction obeys its law on every fault state',
     'For every fault state in two and three dimensions and every fused run: the fault fails exactly if the total shear stress exceeds the Coulomb strength; a failing fault carries a shear traction of the magnitude of the strength in direction of the total shear stress, a locked one keeps its stress and does not slip. '
     'Stresses are continuous across the fault, velocities change by impedance times the stress change on the proper side, slip accumulates the absolute slip rate, and the friction coefficient is the linear slip weakening function of the accumulated slip between the dynamic and the static coefficient. '
     'Other quantities and other sub-faces are unchanged.',
     ['inputs'], 'all stresses, velocities, friction parameters, slips, time steps, side assignments and sub-faces',
     'Signs, tension, slip reversal, bimaterial faults and fused runs multiply; the tests check single values.',
     ['src/impl/seismic/solvers/FrictionLaws.hpp'],
     [('friction law', 'src/impl/seismic/solvers/FrictionLaws.hpp: linSlipWeak'), ('dispatch to side and sub-face', 'src/impl/seismic/solvers/FrictionLaws.hpp: perturb')],
     observe='perturbed middle states and sub-face data', note='for one and two fused runs; ' + REAL)

prop('P14', 'F-wave solver conserves, preserves lakes at rest and upwinds',
     'For all water heights above zero, momenta, bathymetries and gravity constants, the left and right net-updates of the shallow water Riemann solver sum up to the jump of the fluxes plus the bathymetry source term and vanish for a lake at rest. '
     'If both waves travel in one direction the other side gets no update; otherwise each side gets the wave of its own direction, with the Einfeldt speeds (extrema of the characteristic and Roe speeds) for the given gravity constant.',
     ['inputs'], 'all states left and right of an edge, all gravity constants above zero, per fused run',
     'Conservation and well-balancedness are identities over all real inputs including supercritical flow; tests sample a few states.',
     ['src/impl/swe/solvers/Fwave.hpp'], [('Riemann solver', 'src/impl/swe/solvers/Fwave.hpp: nusN, evs, waveStrengths, nus')],
     observe='net-updates', note='for one and two fused runs; ' + REAL)

prop('P15', 'Shallow water finite volume step: conservation, walls, dry cells, update',
     'For every mesh, every range of faces and every state with positive height in wet cells: the net-updates of a face between wet cells add up to the normal flux jump and vanish at rest; dry cells (bathymetry not below zero) get none, and boundary conditions (outflow, reflecting, dry neighbour) act as documented: no update at outflow, no water flux through a wall. '
     'The element update subtracts time step over volume times face area times the net-update of the element\'s own side of each of its faces, with the momentum in direction of the face normal; nothing outside the given range is changed. '
     'The time step of a wet cell is CFL number times diameter over (absolute speed plus gravity wave speed) and dimensions; dry cells do not restrict it.',
     ['inputs', 'configurations'], 'all meshes (any number of faces and elements), face types, normals, bathymetries, states and ranges',
     'Meshes of any size with any wet/dry and boundary pattern; tests use fixed tiny meshes.',
     ['src/impl/swe/solvers/FiniteVolume.hpp', 'src/impl/swe/solvers/Fwave.hpp'],
     [('net-updates', 'src/impl/swe/solvers/FiniteVolume.hpp: nusN, qtsLr'), ('element update', 'src/impl/swe/solvers/FiniteVolume.hpp: update'),
      ('time step', 'src/impl/swe/solvers/FiniteVolume.hpp: computeCflTimeStep')],
     observe='net-updates and DOFs', note='unbounded in faces and elements by loop invariants; lines, quads (and triangles for the update); ' + REAL)

prop('P05', 'Jacobians, star matrices and face rotations represent the wave equations',
     'For all densities, Lame parameters and mappings: the Jacobians are the ones of the elastic wave equations (2D and 3D), and the dense and sparse star matrices combine them (or the strain rates of the anelastic part) with the inverse Jacobian of the element mapping. '
     'For every face normal (and tangents), the transformation rotates stresses and velocities from face-aligned to physical coordinates and the inverse transformation undoes it exactly.',
     ['inputs'], 'all material parameters, inverse mapping Jacobians, unit normals (2D), non-degenerate normal-tangent systems (3D)',
     'Identities in up to nine real inputs with 81 entries per matrix; tests check rounded entries of a few samples.',
     ['src/impl/seismic/common.hpp', 'src/impl/seismic/setups/Elasticity.cpp', 'src/impl/seismic/setups/ViscoElasticity.cpp', 'src/impl/seismic/generated'],
     [('Jacobians and transformations', 'src/impl/seismic/common.hpp: getJac, setupTrafo2d/3d, setupTrafoInv2d/3d'), ('star matrices', 'src/impl/seismic/setups: Elasticity::star, ViscoElasticity::star')],
     observe='matrices', note=REAL)

prop('P06', 'Flux solvers are the exact solution of the elastic Riemann problem',
     'For all material parameters on the two sides of a face, left and right solvers are the Jacobian of the left side applied to the exact middle state of the Riemann problem (continuous traction and velocity, impedance-weighted), for P- and S-waves, for acoustic pairs in 2D, and for the strain rates of the anelastic part. '
     'At a free surface the tractions of the right side are mirrored, everything else is copied. '
     'In physical coordinates, the solvers are the face-aligned ones between the transformation and its inverse.',
     ['inputs'], 'all densities, Lame parameters left and right, all transformations',
     'Generated closed forms with roots in six parameters; tests compare a few rounded values and rarely use bimaterial faces.',
     ['src/impl/seismic/setups/Elasticity.cpp', 'src/impl/seismic/setups/ViscoElasticity.cpp', 'src/impl/seismic/generated', 'src/linalg/Matrix.h'],
     [('elastic solvers', 'src/impl/seismic/setups/Elasticity.cpp: fs, setupFlMid, setupFrMid'), ('anelastic solvers', 'src/impl/seismic/setups/ViscoElasticity.cpp: fs, fsMid')],
     observe='solver matrices', note='3D acoustic and mixed elastic-acoustic pairs are not supported by the code; ' + REAL)

prop('P07', 'Viscoelastic attenuation meets phase velocities and quality factors',
     'For all central frequencies, frequency ratios, quality factors and phase velocities (Lame parameters): the relaxation frequencies are logarithmically equispaced over the band, and the system that is fitted states the given inverse quality factor at each of them. '
     'The elastic parameters are those for which the P- and S-wave phase velocities are met at the reference frequency, given the fits. '
     'The source matrices (dense and sparse) relax P-wave and shear modulus with their respective fits.',
     ['inputs', 'configurations'], 'all frequencies, ratios, quality factors and Lame parameters above zero; one to four mechanisms',
     'Identities over real inputs; tests compare rounded literature values for one setup.',
     ['src/impl/seismic/setups/ViscoElasticity.cpp', 'src/impl/seismic/setups/ViscoElasticity.h'],
     [('frequencies', 'src/impl/seismic/setups/ViscoElasticity.h: frequencies'), ('fit', 'src/impl/seismic/setups/ViscoElasticity.cpp: anelasticCoeffPs, anelasticCoeffLame'),
      ('elastic parameters', 'src/impl/seismic/setups/ViscoElasticity.cpp: elasticLame'), ('source matrices', 'src/impl/seismic/setups/ViscoElasticity.h: src')],
     observe='frequencies, systems, Lame parameters and source matrices', note='the least squares solver of Eigen is assumed; ' + REAL)

prop('P09', 'Time integration of sampled source time functions is exact',
     'For every equidistantly sampled time series (any start, sampling interval and number of samples) and every two integration bounds, the integral over the time between the bounds is exactly the one of the piecewise linear function through the samples, '
     'continued by the given constant before the first and after the last sample. This includes bounds in the same interval, at samples, and before or after the series. Every series of the samples is integrated on its own.',
     ['inputs'], 'all series, all bounds (outside of the tolerance zones next to both ends), all constants outside of the series',
     'Sums over arbitrarily many samples with bounds at any position relative to the samples; tests have a few bounds.',
     ['src/linalg/Series.hpp'],
     [('integration', 'src/linalg/Series.hpp: integrate')],
     observe='integrals', note='unbounded: loop invariants over ghost partial sums; bounds within 1E-9 outside of the two ends are excluded; one and two series; ' + REAL)

prop('P08', 'Reference mappings, Jacobians and face parametrizations are consistent',
     'For every element of every type: the mapping to physical coordinates interpolates the vertices, the inverse mapping undoes it in both directions (non-degenerate elements, axis-aligned rectangles and bricks), and the Jacobian is its derivative. '
     'Every face parametrization covers the face spanned by the vertices of the reference face; points of a face that are mapped to the parametrization of the adjacent element are the same physical points, for all pairs of faces and all orientations. '
     'Determinants and inverses of small matrices are exact.',
     ['inputs'], 'all coordinates of lines, triangles, rectangles, tetrahedra and hexahedra; all points; all pairs of faces and orientations',
     'Identities in up to 30 real inputs over all combinations of faces; tests use reference elements and few points.',
     ['src/linalg/Mappings.hpp', 'src/linalg/Shape.hpp', 'src/linalg/Matrix.h', 'src/constants.hpp'],
     [('mappings', 'src/linalg/Mappings.hpp: refToPhy, phyToRef, evalJac'), ('faces', 'src/linalg/Mappings.hpp: faToVolRef, faLocToFaNei, mapFaceCoords'),
      ('shape functions', 'src/linalg/Shape.hpp'), ('matrices', 'src/linalg/Matrix.h: det, inv')],
     observe='coordinates and matrix entries', note=REAL)

prop('P10', 'ADER-DG kernels: volume, time prediction, surface updates are exact',
     'For all degrees of freedom, element matrices and reference matrices: the volume integration adds stiffness times Jacobians plus the sources of the memory variables; '
     'the time prediction follows the Cauchy-Kowalevski recursion of the same equations (memory variables decay), and its integrals and point values are those of the Taylor series over all modes. '
     'Local and neighboring surface contributions apply the flux matrix of their face, orientation and neighboring face (of the own face at boundaries), the flux solver and the back-projection, and nothing else is changed.',
     ['inputs', 'configurations'], 'all reals for line, triangle, rectangle, tetrahedral and hexahedral elements of order two or three, single and fused runs, zero to two relaxation mechanisms',
     'Multilinear identities in hundreds of inputs; the kernel tests need generated matrices and use one input.',
     ['src/impl/seismic/kernels', 'src/impl/advection/kernels', 'src/data/MmVanilla.hpp', 'src/linalg/Matrix.h', 'src/dg'],
     [('volume', 'src/impl/seismic/kernels/VolIntVanilla.hpp: apply; src/impl/advection/kernels/VolInt.hpp: apply'),
      ('time', 'src/impl/seismic/kernels/TimePredVanilla.hpp: ck; TimePred.hpp: evalTimePrediction, integrate'),
      ('surface', 'src/impl/seismic/kernels/SurfIntVanilla.hpp: local, neigh, neighFluxInt; SurfInt.hpp: scatterUpdateA'),
      ('matrices', 'src/dg/VolInt.hpp, TimePred.hpp, SurfInt.hpp; src/linalg/Matrix.h: matMulFusedAC, matMulFusedBC')],
     observe='degrees of freedom, derivatives, time integrals', note='reference matrices are arbitrary (for hierarchical bases: derivatives have lower degree); configurations listed in DESIGN.md; ' + REAL)
