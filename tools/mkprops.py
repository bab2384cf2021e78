"""Regenerates /verif/properties.jsonl (the one place the property texts live)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": [observe], "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Baseline numbers identify antenna pairs one-to-one",
 "For antennas numbered 0 to 2046, converting a pair to a Miriad baseline number ignores the order of the pair, gives 256(i+1)+(j+1) while the larger antenna is below 255 and 65536+2048(i+1)+(j+1) otherwise, and converting back returns exactly that pair with the smaller antenna first; polarisation-tagged baseline numbers likewise round-trip the pair and the polarisation code -8..4, and the array object's own conversions agree. Enumerating an array's baselines yields every auto and/or cross pair it was asked for exactly once, in increasing (i,j) order.",
 ["inputs"], "every pair of antenna numbers 0..2046, every polarisation code, every array size",
 "the tests convert a handful of pairs; a wrong threshold or radix only shows at the 255/256 boundary or for particular pairs",
 ["aipy/miriad.py", "aipy/phs.py", "aipy/pol.py"],
 [("ij2bl", "aipy/miriad.py"), ("bl2ij", "aipy/miriad.py"), ("AntennaArray.bl_indices/ij2bl/bl2ij", "aipy/phs.py"), ("ijp2blp/blp2ijp", "aipy/pol.py")],
 "return values of the conversion functions")

prop("C02", "Rotation and hour-angle matrices are proper rotations",
 "The rotation matrix for any angle about any unit axis is orthogonal with determinant +1, leaves the axis fixed and turns vectors perpendicular to it by that angle according to the right-hand rule. The equatorial-to-topocentric matrix for any hour angle and declination is a proper rotation that sends the direction at that hour angle and declination to the zenith and the north pole to latitude dec due north, and the topocentric-to-equatorial matrix is its inverse. Passing arrays of angles (and axes) gives, matrix by matrix, the same results as passing them one at a time.",
 ["inputs"], "all angles, all unit axes, all hour angles and declinations, any number of stacked angles",
 "tests compare single matrices at special angles; orthogonality, handedness and the stacked forms must hold everywhere",
 ["aipy/coord.py"], [("rot_m", "aipy/coord.py"), ("eq2top_m", "aipy/coord.py"), ("top2eq_m", "aipy/coord.py")],
 "returned matrices")

prop("C03", "Sky-coordinate conversions are mutually inverse and in range",
 "Converting a direction to angles and back (theta/phi, right ascension/declination, latitude/longitude, azimuth/altitude) returns the same unit vector, and converting angles to a direction and back returns the same angles. Right ascension and azimuth come out in [0, 2pi] (floating point may round a tiny negative angle up to 2pi itself), theta in [0, pi] and declination/altitude in [-pi/2, pi/2]; right ascension grows counter-clockwise from x about z, azimuth grows clockwise from north (y) through east (x), and declination/altitude are measured from the xy plane towards +z. Arrays of directions are converted element by element.",
 ["inputs"], "all non-zero vectors, all angles in the stated ranges, any array length",
 "tests use axis-aligned vectors; quadrant, wrap and sign errors hide off the axes",
 ["aipy/coord.py"], [("xyz2thphi/thphi2xyz", "aipy/coord.py"), ("eq2radec/radec2eq/latlong2xyz", "aipy/coord.py"), ("top2azalt/azalt2top", "aipy/coord.py")],
 "returned arrays")

prop("C04", "Baselines and uvw are antenna differences rotated as requested",
 "The baseline from antenna i to antenna j is position j minus position i, unrotated on request, rotated by the zenith matrix for the array's latitude for 'z', rotated by minus the current sidereal time about the pole for 'e', and projected by the source's own hour-angle matrix for a source or for each direction given as a vector. The (u,v,w) coordinates are that baseline times each active frequency, the w-only request returns exactly the w of the full request, swapping the antennas negates every coordinate, and rotation preserves baseline length. A source below the horizon is refused with a pointing error, one on or above it is not.",
 ["inputs"], "all antenna positions, latitudes, sidereal times, source directions and frequency grids",
 "tests sample one array; sign, axis and broadcasting slips need generic positions and several sources at once",
 ["aipy/phs.py", "aipy/coord.py"], [("AntennaArray.get_baseline", "aipy/phs.py"), ("AntennaArray.gen_uvw", "aipy/phs.py"), ("RadioBody.compute", "aipy/phs.py"), ("ArrayLocation", "aipy/phs.py")],
 "returned baselines, uvw arrays and raised pointing errors")

prop("C05", "Phasing is a pure, invertible delay that matches the geometry",
 "The phase towards a source is exp(-2 pi i (w + o)), where w is the baseline's w in wavelengths plus the ionospheric shift (dra*u+ddec*v)*(mfreq/f)^2, and o is the phase offset of antenna j minus that of antenna i; it has unit modulus and conjugates when the antennas are swapped. Asking for source resolution multiplies it by 2 J1(x)/x of the elliptical disc, which is 1 for zero size or zero baseline. Phasing data to a source and then unphasing it returns the data.",
 ["inputs"], "all baselines, sources, ionospheric offsets, source shapes, frequencies and data",
 "tests check a few phases of one array; sign of the offset, frequency scaling and the disc orientation need generic values",
 ["aipy/phs.py"], [("AntennaArray.gen_phs", "aipy/phs.py"), ("refract/resolve_src", "aipy/phs.py"), ("phs2src/unphs2src", "aipy/phs.py"), ("get_phs_offset", "aipy/phs.py")],
 "returned phase arrays")

prop("C06", "Source spectra, beams, pointings and passbands follow their models",
 "A source's flux at each active frequency is its reference flux times (f/mfreq)^index; a passband is amp*(real polynomial + i*imaginary polynomial) at each frequency and the baseline passband is that of j times the conjugate of that of i. The flat beam is 1, the 2-D Gaussian beam is exp(-((asin x/xwidth)^2+(asin y/ywidth)^2)/4), and the polynomial beam is exp(-(zenith angle/sigma)^2/2) with sigma half the first polynomial row plus the cos(2n az) terms, each evaluated per frequency. An antenna's beam is evaluated in coordinates rotated by its pointing and twist so that the pointing direction is the beam's zenith, and polarisation y is x turned by pi/2 about it.",
 ["inputs"], "all spectra, frequencies, beam widths, polynomials, pointings, twists and sky directions",
 "tests use default pointings and flat spectra",
 ["aipy/amp.py", "aipy/phs.py"], [("RadioBody.update_jys", "aipy/amp.py"), ("Beam*.response", "aipy/amp.py"), ("Antenna.set_pointing/bm_response/passband", "aipy/amp.py"), ("AntennaArray.passband", "aipy/amp.py")],
 "returned flux, gain and beam arrays")

prop("C07", "Simulated visibilities equal the measurement equation",
 "The simulated visibility of a baseline equals, at every frequency, the sum over the catalogue sources strictly above the horizon of flux * passband(i,j) * beam_j * conj(beam_i) * conj(phase towards the source, with its ionospheric shift and resolution); sources on or below the horizon contribute nothing, and with none up the result is zero. Each source keeps its own flux, reference frequency, ionospheric offset and shape when others are dropped, results for one baseline do not depend on which baselines or polarisations were simulated before at that time, and swapping the antennas (and the two feeds) conjugates the result. Simulating before the sources for the current time were supplied is refused.",
 ["inputs", "histories"], "all catalogues, arrays, times, polarisations and orders of simulation calls at one time",
 "tests simulate one or two sources; the per-source bookkeeping and the cache are only exercised by mixed catalogues and call orders",
 ["aipy/amp.py", "aipy/phs.py"], [("AntennaArray.sim_cache", "aipy/amp.py"), ("AntennaArray.sim", "aipy/amp.py"), ("AntennaArray.bm_response", "aipy/amp.py")],
 "returned visibilities", [("per-time simulation cache", "source data kept for the current time and beam responses per antenna and feed")])

prop("C08", "Fit-parameter dictionaries survive flattening",
 "Flattening a nested dictionary of parameters gives a flat list holding every scalar and every element of every non-empty sequence exactly once, in sorted key order, and an index from which any equally long list can be unflattened. Unflattening the same list returns the original dictionary (one-element sequences come back as their element), and unflattening a modified list puts each changed number back in exactly its own place. Neither operation changes its input dictionary or list.",
 ["inputs"], "all nestings, key sets, sequence lengths and values",
 "tests flatten one fixed dictionary",
 ["aipy/fit.py"], [("flatten_prms", "aipy/fit.py"), ("reconstruct_prms", "aipy/fit.py")], "returned lists and dictionaries")

prop("C09", "Model parameters can be read back exactly as they were set",
 "Setting any subset of a source's, beam's, antenna's or array's documented fit parameters changes exactly those values: reading all parameters afterwards returns the new value for each one set and the previous value for every other, asking for named parameters returns exactly those that exist, and setting back what was read changes nothing. Unknown names and unknown sources are ignored, and derived quantities (phase offset, passband, beam width polynomial) afterwards agree with the parameters. Parameters of different sources and antennas are independent of each other when built from separate arguments, except that antennas sharing one beam object share its parameters.",
 ["inputs", "histories"], "all subsets of parameters, values and sequences of set/get calls on every fittable object",
 "tests set a few parameters one at a time",
 ["aipy/fit.py", "aipy/pol.py", "aipy/amp.py"], [("get_params/set_params", "aipy/fit.py"), ("Antenna.get_params/set_params", "aipy/pol.py")],
 "returned parameter dictionaries and derived attributes")

prop("C10", "Command-line selections mean exactly what their grammar says",
 "Antenna strings (lists of antennas, i_j pairs, parenthesised groups, '-' exclusions, x/y feeds, 'all', 'auto', 'cross') expand to exactly the (baseline, include, polarisation) list of their cross products in order; channel strings expand to the union in order of single channels and inclusive ranges with optional step. Parameter strings expand to every named parameter of every named object with its value and error or None, and source strings separate names, ra_dec positions and flux/frequency cutoffs.",
 ["inputs"], "all strings generated by the documented option grammar",
 "tests parse a few literal strings", ["aipy/scripting.py"],
 [("parse_ants", "aipy/scripting.py"), ("parse_chans", "aipy/scripting.py"), ("parse_prms", "aipy/scripting.py"), ("parse_srcs", "aipy/scripting.py")],
 "returned lists and dictionaries")

prop("C11", "Derived array state always follows time, channels and parameters",
 "After any sequence of setting the time, selecting channels, changing parameters and updating, an array behaves exactly as one built from scratch with the same parameters, channels and time: active frequencies are the chosen channels of the full list in the chosen order, phase offsets, passbands and beam widths are their polynomials at those frequencies, and the current-equatorial and topocentric matrices are those of the current sidereal time and latitude. Julian dates set on an array read back unchanged, converting between Julian dates and ephemeris dates is an exact shift of 2415020 days, and setting the time discards the simulation cache of earlier times.",
 ["histories", "inputs"], "all sequences of set-time, select-channels, set-parameters and update calls on an array at a fixed place; beam attributes edited directly take effect at the next update",
 "tests make one such call each; staleness only shows after particular sequences",
 ["aipy/phs.py", "aipy/amp.py", "aipy/fit.py"], [("Beam.select_chans/update", "aipy/phs.py"), ("Antenna.update", "aipy/phs.py"), ("ArrayLocation.set_jultime/set_ephemtime/update", "aipy/phs.py"), ("AntennaArray.set_jultime", "aipy/amp.py")],
 "public attributes and results after the sequence", [("derived frequency, phase, gain and rotation state", "recomputed from parameters on update")])

prop("C12", "Adding data at index lists sums every occurrence",
 "Adding a list of values into an array at a list of indices leaves each cell equal to its old value plus the sum of all values whose index names that cell, with negative indices counting from the end, for every supported numeric type, any number of dimensions and any memory layout of the three arrays. Indices out of range, mismatched shapes, ranks or types raise an error, and no memory outside the array is touched.",
 ["inputs"], "all arrays, dimensions, index lists and data lists whose sums fit the type",
 "tests add to small contiguous arrays in a few types",
 ["aipy/utils/utils.cpp"], [("add2array", "aipy/utils/utils.cpp"), ("AddStuff loops", "aipy/utils/utils.cpp")], "array contents after the call, raised errors")

prop("C13", "Gridding spreads, and degridding averages, over wrapped cells",
 "Gridding a sample at a fractional position adds to each cell within the footprint, wrapped periodically in each axis, the sample times the Gaussian weight of the cell's distance (sqrt(2/pi)exp(-2d^2) in 1-D, 2/pi exp(-2d^2) in 2-D), for any buffer shape, position and sample count, and touches no other memory. Degridding returns at each position the weighted mean of the same wrapped cells with the same weights, so a constant grid degrids to that constant. Gridding is additive over samples.",
 ["inputs"], "all non-empty buffer shapes including non-square ones, positions of either sign, footprints and sample lists",
 "tests grid onto square buffers near the origin",
 ["aipy/_dsp/grid/grid.c", "aipy/_dsp/dsp.c"], [("grid1D_c/grid2D_c", "aipy/_dsp/grid/grid.c"), ("degrid2D_c", "aipy/_dsp/grid/grid.c"), ("wrappers", "aipy/_dsp/dsp.c")],
 "buffer and data contents after the call")

prop("C14", "Images and uv planes keep their geometry",
 "Gridding uv data places each datum at row -v/res and column u/res of the plane (and its weight in the beam plane), leaves the stored planes untouched when told not to apply, and reading back at a coordinate returns the ratio of the gridded data to the gridded weights there. Appending Hermitian data adds each point's negated coordinates with conjugated data and the same weights, so that the transformed image is real. Recentring by c moves the element at c to the origin with wraparound and loses nothing, and the uv, direction-cosine, topocentric and equatorial coordinates of every pixel agree with each other, with the mask exactly where l^2+m^2 >= 1.",
 ["inputs"], "all image sizes, resolutions, centres, uvw samples, data and weights",
 "tests look at a few pixels of a small square image",
 ["aipy/img.py"], [("Img.put/get/get_indices", "aipy/img.py"), ("append_hermitian", "aipy/img.py"), ("recenter", "aipy/img.py"), ("get_LM/get_uv/get_top/get_eq", "aipy/img.py")],
 "returned arrays and stored planes")

prop("C15", "CLEAN keeps model and residual consistent with the dirty image",
 "Throughout and after CLEAN, for real or complex data in one or two dimensions, the residual equals the initial residual minus the circular convolution of the kernel with what was added to the model, whichever way the loop ends. Components are only ever placed at pixels inside the search area (apart from a zero-size first step at the origin), each at the pixel of largest residual magnitude there (largest positive residual if positivity is asked) with size gain times residual over kernel peak. Convergence, divergence (with the last step undone) and iteration exhaustion are reported as such, and no more than the permitted number of iterations is run when divergence stops the loop.",
 ["inputs", "histories"], "all images, kernels that are not all zero, areas, gains, tolerances and loop lengths",
 "tests clean one point-source image; the identity must hold at every exit of an unbounded loop",
 ["aipy/_deconv/deconv.cpp", "aipy/deconv.py"], [("clean_1d_r/clean_2d_r/clean_1d_c/clean_2d_c", "aipy/_deconv/deconv.cpp"), ("clean", "aipy/deconv.py")],
 "returned model, residual and termination info")

prop("C16", "Deconvolution results report a true residual and respect bounds",
 "For least-squares, maximum-entropy and annealing deconvolution the returned residual is exactly the image minus the convolution of the returned model with the kernel, the model keeps the image's shape, and every pixel that an iteration updated lies within the lower and upper bounds. The iteration count never exceeds the limit and the termination word matches how the loop ended; annealing never returns a worse score than it started with. The input image, kernel and starting model are left unchanged.",
 ["inputs", "histories"], "all images, kernels, starting models, gains, bounds and iteration limits",
 "tests run one image per method and check only that something is returned",
 ["aipy/deconv.py"], [("lsq", "aipy/deconv.py"), ("maxent", "aipy/deconv.py"), ("anneal", "aipy/deconv.py")], "returned model and info")

prop("C17", "HEALPix maps hold the data they were given at the right pixels",
 "Assigning values at pixels or directions stores at each addressed pixel the sum of the values assigned to it in that call and leaves every other pixel alone; reading at pixels or directions returns the stored value of the pixel, or the 4-point weighted mean when interpolation is on. Changing the ordering scheme, or copying a map of the same resolution from either scheme, keeps every sky direction's value, and the map's scheme and resolution always describe its data. Spherical-harmonic coefficients are addressed by (l,m) consistently with the coefficient list, and wrongly sized data is refused.",
 ["inputs", "histories"], "all resolutions, schemes, pixel lists, directions, values and sequences of conversions",
 "tests use one small map in one scheme",
 ["aipy/healpix.py"], [("HealpixMap.__setitem__/__getitem__", "aipy/healpix.py"), ("change_scheme/nest_ring_conv/from_hpm/set_map", "aipy/healpix.py"), ("Alm", "aipy/healpix.py")],
 "values read from the map", [("map data, resolution and scheme", "kept mutually consistent")])

prop("C18", "Sky maps accumulate weighted means and facets cover the sphere once",
 "After any sequence of weighted additions at distinct pixels the map reads back at each pixel the weight-averaged flux (and averaged spectral indices) of everything added there, unweighted pixels read zero, putting overwrites, and resetting weights keeps the averages. The N facet centres are a permutation of the N packed sphere points, which are unit vectors in order of equally spaced height, and bit-reversal enumerates every index exactly once.",
 ["inputs", "histories"], "all N, maps, pixel lists, weights and sequences of add/put/reset",
 "tests add once and check array shapes",
 ["aipy/map.py"], [("Map.add/put/get/reset_wgt", "aipy/map.py"), ("facet_centers/pack_sphere/_bit_reverse_order/_local_shuffle", "aipy/map.py")], "values read from the map and returned points",
 [("weight and flux maps", "flux map holds weight*flux sums")])

prop("C19", "Window functions and resampling follow their definitions",
 "Every named window of length L evaluates its textbook formula at samples 0..L-1, stays within [0,1] to rounding and is symmetric about its centre (the Parzen window about L/2), and a Tukey window is flat for alpha<=0, the Hann window for alpha>=1 and continuous in between. Spectral channel frequencies are start plus channel number times spacing. Interpolating by a factor reproduces constants exactly and returns the factor times as many samples as were given.",
 ["inputs"], "all window names, lengths of at least 2, taper fractions, frequency grids, interpolation orders of at least 2 and sample sequences at least as long as the order",
 "tests check shapes or a single length",
 ["aipy/dsp.py", "aipy/interp.py", "aipy/cal.py"], [("gen_window/WINDOW_FUNC/tukey", "aipy/dsp.py"), ("interpolate", "aipy/interp.py"), ("get_freqs", "aipy/cal.py")], "returned arrays")

prop("C20", "Header items and variables keep their typed values on disk",
 "Every documented header item and every variable written to a new data set reads back with the same type and value (to the precision of its Miriad type: 8/16/32-bit integers, big-endian IEEE singles and doubles, text, complex pairs), for scalars and sequences of any length, after closing and reopening. Packing then unpacking any host value of each external type is the identity and the external bytes are big-endian regardless of the host, and a single byte item is transferred unchanged. Missing items raise an I/O error instead of returning data.",
 ["inputs"], "all item types and lengths (a variable holds at most 32 kB), integer values within the range of their type; the obstype item and the vartable, which the library maintains itself, are excluded",
 "tests write a few values; byte order, sign and sign-extension errors need particular bit patterns",
 ["aipy/miriad.py", "aipy/_miriad/miriad_wrap.cpp", "aipy/_miriad/mir/pack.c", "aipy/_miriad/mir/hio.c"],
 [("pack16_c/unpack16_c/pack32/...", "aipy/_miriad/mir/pack.c"), ("UV._rdhd/_wrhd/__getitem__/__setitem__", "aipy/miriad.py"), ("hread/hwrite/rdvr/wrvr", "aipy/_miriad/miriad_wrap.cpp")],
 "values read back from the data set")

prop("C21", "Flag masks store and return exactly the flags written",
 "Writing any pattern of flags for any range of channels, of any length and alignment, and reading any range back returns for every channel the flag last written, independent of how the writes and reads were divided into calls and of word boundaries. In the file, each flag occupies one bit of a big-endian word holding 31 flags, the first flag in the least significant bit; run-length reading describes the same flags. Flags outside the written range are not disturbed.",
 ["inputs", "histories"], "all offsets, lengths, bit patterns and sequences of writes starting at or before the end of what was written and reads inside it; masks below 8 GB",
 "tests write a few whole records with simple flags",
 ["aipy/_miriad/mir/maskio.c"], [("mkread_c", "aipy/_miriad/mir/maskio.c"), ("mkwrite_c", "aipy/_miriad/mir/maskio.c")], "flags read back", [("mask buffer", "window of packed words shared by reads and writes")])

prop("C22", "Visibility records read back as they were written",
 "Every record written to a new data set (uvw, time, antenna pair, complex spectrum and flags, with any number of channels and any change of variables between records) is read back in the same order with the same coordinates, time, antenna pair, flags and variable values, and with the same spectrum exactly in float mode or to within one step of the record's own scale in 16-bit mode. Rewinding restarts the sequence from the first record, and reading past the last one ends it cleanly. Data flagged by a mask or by an explicit flag array is stored with the same meaning.",
 ["inputs", "histories"], "all sequences of at least one record of at least one channel each; finite normal data in 16-bit mode; a variable has no specified value before it is first written",
 "tests write a handful of similar records",
 ["aipy/miriad.py", "aipy/_miriad/miriad_wrap.cpp", "aipy/_miriad/mir/uvio.c"], [("UV.read/write/all", "aipy/miriad.py"), ("raw_read/raw_write", "aipy/_miriad/miriad_wrap.cpp"), ("uvwrite_c/uvread_c", "aipy/_miriad/mir/uvio.c")],
 "records read back")

prop("C23", "Data selection returns exactly the matching records",
 "After selecting by antenna pair, auto-correlation, polarisation, time range or decimation (and combinations, inclusive or exclusive, joined by and/or), reading returns exactly the records that satisfy the selection, unchanged and in file order. Decimating by N with phase p keeps each integration whose index is p modulo N, whole integrations at a time. Reading files into per-baseline dictionaries files every selected record once under its antenna pair and polarisation, in time order, with one time entry per integration.",
 ["inputs", "histories"], "all data sets of at least one record and all selections in the documented forms: times as Julian dates, decimation by N >= 1 with the integrations counted among those of the otherwise selected records",
 "tests select a few baselines from one file",
 ["aipy/miriad.py", "aipy/_miriad/miriad_wrap.cpp", "aipy/_miriad/mir/uvio.c", "aipy/scripting.py"], [("UV.select", "aipy/miriad.py"), ("uvselect", "aipy/_miriad/mir/uvio.c"), ("raw_read decimation", "aipy/_miriad/miriad_wrap.cpp"), ("read_files", "aipy/miriad.py"), ("uv_selector", "aipy/scripting.py")],
 "records returned")

prop("C24", "Polarisation labels, feeds and Stokes combinations are consistent",
 "Polarisation names and Miriad codes correspond one-to-one (I,Q,U,V = 1..4, rr,ll,rl,lr = -1..-4, xx,yy,xy,yx = -5..-8). For a baseline (i,j) with polarisation pq the first feed belongs to antenna i and the second to antenna j in phase offsets, passbands and beams, and per-feed parameters are independent of each other. The parallactic angle is the position angle of the zenith at the given hour angle, declination and latitude, and unsupported polarisations are refused.",
 ["inputs"], "all labels, antenna pairs, feeds, per-feed parameters, hour angles, declinations and latitudes",
 "tests mostly use identical feeds, for which mix-ups cancel",
 ["aipy/pol.py", "aipy/miriad.py", "aipy/amp.py"], [("str2pol/pol2str", "aipy/miriad.py"), ("Antenna/AntennaArray", "aipy/pol.py"), ("ParAng", "aipy/pol.py"), ("AntennaArray.bm_response", "aipy/amp.py")],
 "returned labels, gains and phases")

prop("C25", "Source catalogues return the requested sources with their own values",
 "A catalogue filed from sources returns each source under its name, lists sources and attributes in the order asked for, and returns every catalogue entry when no names are given. Coordinates returned for a list of sources have one column per source equal to that source's own coordinates in the requested system and dimension, and fluxes have one row per source. Adding sources one by one or as a list is the same.",
 ["inputs"], "all sets of sources, attribute names and orders",
 "tests use two or three sources",
 ["aipy/phs.py", "aipy/amp.py", "aipy/fit.py"], [("SrcCatalog.add_srcs/get_srcs/get_crds/get", "aipy/phs.py"), ("SrcCatalog.get_jys/update_jys", "aipy/amp.py")],
 "returned lists and arrays")

prop("C26", "Cloning a data set through a pipe preserves it",
 "Initialising a new data set from another and piping the data through with no function gives a data set whose header items, variables (at every record) and records equal the original's, with the appended text added to the history. Items and variables listed as overrides take the override value throughout, excluded ones are absent, records for which the function returns no data are dropped, and records it changes are stored as changed.",
 ["inputs", "histories"], "all source data sets of at least one record, overrides of header items the source has and of variables other than those the record itself determines (nchan, coord, time, baseline, corr, tscale), exclude sets and record functions",
 "tests clone one file with constant variables",
 ["aipy/miriad.py", "aipy/_miriad/mir/uvio.c"], [("UV.init_from_uv", "aipy/miriad.py"), ("UV.pipe", "aipy/miriad.py"), ("uvcopyvr_c/uvtrack_c", "aipy/_miriad/mir/uvio.c")],
 "contents of the new data set")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P))
