"""Single source of the property texts; tools/gen.py writes properties.jsonl and MANIFEST.json from it."""
P = {}
NA = {}


def prop(pid, title, statement, text, why, files, mech, over=('inputs', 'configurations'), note='', observe=()):
    assert len(title) <= 80, (pid, len(title))
    P[pid] = dict(title=title, statement=statement, over=list(over), text=text, why=why, files=files, mech=mech, note=note,
                  observe=list(observe))


def na(pid, reason):
    NA[pid] = reason


mf = 'src/dga/matsubara_frequencies.py'
bub = 'src/dga/bubble.py'
lfp = 'src/dga/local_four_point.py'
fp = 'src/dga/four_point.py'
twop = 'src/dga/two_point.py'
bz = 'src/dga/brillouin_zone.py'

prop('C01', 'Matsubara grids and frequency shifts follow the documented conventions',
     'Fermionic grids hold the integers -n..n-1 (half that when only positive ones are asked for) and bosonic grids -n..n; the '
     'physical values are i(2v+1)pi/beta and i 2w pi/beta, and the centred grids subtract or add half of w as documented. '
     'Array extents recover the number of frequencies, and shapes that are no valid grid are rejected.',
     'every grid size in the bound, every bosonic index of the grid, every temperature',
     'tests sample a handful of sizes for one temperature; every index and temperature has to agree',
     [mf], [('vn/wn/v/w', mf), ('niv_from_mat/niw_from_mat', mf), ('get_freq_shift, vn_cent*', mf)])
prop('C02', 'Windows keep exactly the requested frequencies at any bosonic shift',
     'Cutting a quantity to a smaller fermionic or bosonic window, or to an asymptotic shell, with or without a bosonic shift, '
     'returns exactly the entries whose Matsubara indices lie in that window and never reads a different frequency. '
     'The inverse operations (filling shells, inverting cores, concatenating core and tail) put every entry back at its own frequency.',
     'all data values, all window sizes and shifts in the bound, any number of axes in any order',
     'tests cut one or two sizes without shifts; an off-by-one at a shifted or odd frequency is invisible there',
     [mf], [('cut_v, cut_v_with_iwn, cut_iwn, cut_v_1d_*', mf), ('inv_cut, concatenate_core_asmypt', mf)])
prop('C03', 'Completing half-range data by symmetry reproduces the full range',
     'Completing an object given at non-negative bosonic or fermionic frequencies puts each given value at its own frequency and its '
     'complex conjugate at the mirrored one, for fermionic arguments mirrored too, on whichever axis is named. '
     'Cutting the non-negative half of the result returns the input.',
     'all complex data, every axis choice, all sizes in the bound',
     'tests check one axis and shape; the mirrored index set differs for fermionic and bosonic axes',
     [mf], [('bosonic_full_nu_range, fermionic_full_nu_range, wplus2wfull, vplus2vfull', mf)])
prop('C04', 'Adding objects on different frequency ranges adds matching frequencies',
     'When objects on windows of different size are added or summed, the smaller one is added to exactly the matching central '
     'frequencies of the larger one on the requested axis, and the rest of the larger one is unchanged. '
     'Neither operand is modified and the result does not depend on the order of the operands.',
     'all data values, every ordered pair of sizes, every axis',
     'never exercised with unequal windows on a non-leading axis by the tests',
     [mf], [('add_bosonic, add_fermionic', mf)])
prop('C05', 'Switching between channel notations moves every element correctly',
     'Transforming a two-particle object between particle-hole and particle-particle (or crossed) notation moves the element at '
     '(w, v, v\') to the position demanded by the frequency relation of the two notations, for every element inside the target '
     'window, and never mixes elements.',
     'all data values, all window sizes in the bound, even and odd bosonic indices',
     'no test covers them; a sign error changes the pairing vertex silently',
     [mf], [('ph2pp_iwn_wc, ph_to_pp notation transforms', mf)])
prop('C06', 'The generalised bubble is minus beta times the product of its two propagators',
     'For every bosonic frequency, fermionic frequency and momentum transfer the generalised bubble equals -beta times the k-average of the '
     'product of the propagators at the two legs that the chosen frequency notation defines; its contraction over fermionic frequencies '
     'with the 1/beta^2 norm is the physical bubble. The local bubble is the single-site case of it.',
     'all propagator values, all q on the mesh, both frequency notations, all frequency sets in the bound',
     'tests compare stored arrays of one data set only',
     [bub], [('BubbleGenerator', bub), ('get_gchi0*, vec_get_*', bub)])
prop('C07', 'The symmetry shortcut for full bosonic ranges does not change the bubble',
     'When the bosonic frequencies form a complete symmetric range, computing only the non-negative half and completing it by '
     'complex conjugation gives exactly the bubble of the direct calculation, local or momentum dependent, in every frequency notation.',
     'all propagators with G(-v)=G(v)^*, all q on the mesh, all notations and ranges in the bound',
     'no test compares both routes; the shortcut silently fails in notations without mirror symmetry',
     [bub, mf], [('vec_get_*(is_full_wn=True)', bub), ('bosonic_full_nu_range', mf)])
hlr = 'src/dga/high_level_routines.py'
prop('C08', 'The bubble tail correction equals the full high-frequency sum minus the window',
     'For any window size, bosonic frequency list and momentum transfer the asymptotic correction of the bubble is the closed form of the '
     'infinite frequency sum of the two high-frequency propagators minus their sum over exactly the frequencies already counted, '
     'so window plus correction does not depend on where the window ends. The local correction is the q average of the lattice one.',
     'all temperatures, moments, dispersions and chemical potentials, all windows, frequency lists and meshes in the bound',
     'tests have no reference for the tail; reading a wrong frequency changes it at the per-mille level',
     [bub], [('get_asympt_sum, get_asympt_sum_q, get_exact_asympt_sum*', bub), ('vec_get_chi0_sum, get_chi0_shell', bub)])
prop('C09', 'Local vertex conversions satisfy the Bethe-Salpeter equation exactly',
     'Irreducible vertex, full vertex and generalised susceptibility obtained from one another satisfy chi = chi0 - chi0 F chi0/beta^2 and '
     'the Bethe-Salpeter equation in every channel, and converting there and back returns the original object. '
     'The frequency list and channel of the object are carried along unchanged.',
     'all complex vertices and bubbles, both channels, frequency lists with and without the full range',
     'tests compare single stored data sets; a wrong factor of beta or an index swap survives for symmetric data',
     [lfp], [('gamob2_from_gchir, gchir_from_gamob2, fob2_from_gchir, Fob2_from_gamob2_urange', lfp)])
prop('C10', 'Two-particle Green\'s functions and susceptibilities convert without loss',
     'The generalised susceptibility is beta times the two-particle Green\'s function minus the disconnected part, which enters only the '
     'density channel at zero transfer, and the conversion back returns it. Contracting legs sums both fermionic frequencies with 1/beta^2; '
     'cutting, symmetrising and extending act on exactly the stated entries of whichever channel and frequency list.',
     'all complex data, both channels, all frequency lists in the bound',
     'tests use full frequency ranges of one size only',
     [lfp], [('gchir_from_g2, g2_from_chir, get_ggv', lfp), ('LocalFourPoint.contract_legs/symmetrize_v_vp/cut/append_vertex', lfp)])
prop('C11', 'Replacing the vertex tail by the bare interaction is done exactly',
     'With the irreducible vertex equal to the bare channel interaction outside the core window, every core quantity (irreducible vertex '
     'from susceptibility, auxiliary and physical susceptibility) equals the core of the Bethe-Salpeter equation solved on the whole '
     'extended window. Without a shell it reduces to the plain inversion.',
     'all complex core vertices and bubbles, both channels, all core and shell sizes in the bound',
     'tests check only that the code runs; an error in the shell algebra is a small smooth deviation',
     [lfp], [('gamob2_from_gchir_urange', lfp), ('chi_phys_urange, chi_phys_asympt, gchi_aux_urange', lfp)])
prop('C12', 'Fermi-Bose vertex and susceptibility agree along every local route',
     'The three-leg vertex, the physical susceptibility and the full vertex come out the same from the auxiliary susceptibility, from '
     'the irreducible vertex and from the lambda/ladder rewriting, with and without asymptotic shell, and equal the contraction of the '
     'Bethe-Salpeter solution on the extended window.',
     'all complex vertices, propagators, temperatures and interactions, both channels, all windows in the bound',
     'no test compares the routes with one another',
     [lfp, fp], [('vrg_from_*, get_vrg_and_chir_tilde_from_gammar_urange, lam_*', lfp), ('Fob2_from_chir_urange', lfp)])
prop('C13', 'The momentum-dependent ladder solves Bethe-Salpeter for every momentum',
     'For every momentum transfer and bosonic frequency the ladder susceptibility, three-leg vertex and double-counting kernel are the '
     'contractions of the Bethe-Salpeter equation with the local vertex and the bubble of that momentum, independent of the other momenta '
     'and of how the momenta are distributed; the requested vertex files get the ladder, vertex and bubble of all momenta.',
     'all complex local vertices, an independent bubble per momentum, both channels, windows and momentum lists in the bound',
     'tests run one data set at one process; mixing of momenta or frequencies is invisible for smooth data',
     [fp, hlr], [('get_vrg_q_tilde, ladder susceptibility, get_kernel_dc', fp), ('construct_vrg_and_chi_q_urange, construct_dc_kernel', hlr)])
prop('C14', 'The local Schwinger-Dyson equation gives the same self-energy on every route',
     'The local self-energy is the Hartree term plus u/2beta times the bosonic sum of (1-(1-u chi) vrg) G(v-w) over both channels, for any '
     'bosonic frequency list, with the bare-vertex tail attached outside the core. '
     'The equation of motion with the full vertex gives the same, and the complete driver from the two-particle Green\'s function does too; it stores each result under its own name when asked to.',
     'all complex vertices, susceptibilities and propagators, temperature, interaction, filling; windows in the bound',
     'tests compare with one stored DMFT result to a loose tolerance',
     [lfp, hlr], [('schwinger_dyson_*', lfp), ('local_sde_from_g2', hlr)])
prop('C15', 'The lattice Schwinger-Dyson equation and its limits are exact',
     'The lattice self-energy is the momentum and frequency sum of density plus three times magnetic minus double-counting kernel times '
     'the shifted propagator, the parts computed by several processes add up to it, and its inputs are left unchanged. '
     'A momentum-independent kernel, or a single-site lattice, gives back the local self-energy exactly.',
     'all complex kernels with inversion symmetry, all propagators, meshes and windows in the bound, 1-4 processes',
     'tests compare with one stored result; momentum roll or weight errors need asymmetric data',
     [fp, hlr], [('schwinger_dyson_full_q, schwinger_dyson_vrg_q, schwinger_dyson_kernel_q, schwinger_dyson_dc', fp)])
prop('C16', 'The self-energy is the data inside its core and the analytic tail outside',
     'Asked for any number of frequencies, the self-energy object returns the given data inside its core, completed by complex '
     'conjugation to negative frequencies, and smom0 - smom1/iv outside; the fitted moments are exact for data on such a tail. '
     'The estimated core never exceeds the data, and the local tail attached to a lattice self-energy sits around its core.',
     'all complex self-energies, temperatures, moments; momentum meshes, window and core sizes in the bound',
     'tests look at one window; an off-by-one between core and tail hides in smooth data',
     [twop], [('SelfEnergy', twop), ('estimate_niv_core, fit_smom, create_dmft_tail helpers', twop)])
prop('C17', 'The lattice Green\'s function satisfies Dyson\'s equation in every window',
     'At every momentum and frequency, core and asymptotic shell alike, the propagator times iv + mu - e_k - Sigma is one, its '
     'k-average is the local propagator, and the full window is core and shell joined in frequency order. '
     'The momentum- and frequency-resolved helper functions agree with it.',
     'all dispersions, complex self-energies, chemical potentials, temperatures; meshes and windows in the bound',
     'tests check a few sizes by shape or against one stored propagator',
     [twop], [('GreensFunction', twop), ('build_g, k-mean, get_g_params', twop)])
prop('C18', 'Filling, chemical potential and energies follow from the propagator',
     'The filling is the frequency sum of the k-averaged propagator with the analytically known tail added through the Fermi function, '
     'exact for a constant self-energy whatever the window; the chemical potential handed out is the root of filling minus target, or '
     'the start value on failure. Kinetic and potential energy are the corresponding traces.',
     'all dispersions, self-energies, temperatures, chemical potentials and target fillings; meshes and windows in the bound',
     'tests compare one or two fillings to a tolerance',
     [twop], [('get_fill, root_fun, update_mu, get_fill_primitive', twop), ('GreensFunction e_kin, e_pot, n', twop)],
     note='convergence of the scipy root finder itself is outside')
prop('C19', 'The lambda correction restores the requested sum rule',
     'The corrected susceptibility is chi/(1 + lambda chi), the Newton iteration follows the derivative of the sum rule, starts right of '
     'the pole of the largest static susceptibility and stays at an exact solution. Which channels are corrected against which local sum '
     'is decided by the chosen type, an unknown type is refused, and the inputs are left unchanged.',
     'all real susceptibilities, start values, targets; every branch of up to three Newton steps; sizes in the bound',
     'tests run one converged example',
     ['src/dga/lambda_correction.py'], [('lambda_correction, lambda_correction_single, use_lambda, get_lambda_start', 'src/dga/lambda_correction.py')])
pvf = 'src/dga/pairing_vertex.py'
eqf = 'src/dga/eliashberg_equation.py'
opt = 'src/dga/optics.py'
prop('C20', 'The pairing vertex is assembled from the right momenta and frequencies',
     'The components each process stores for its momenta are the crossing-transformed slices v - v\' and v + v\' of the ladder vertex at w = v-v\', '
     'and the assembled singlet and triplet pairing vertices combine them, the susceptibilities and the local double counting with the '
     'documented weights at every momentum of the full zone, for any number of processes.',
     'all ladder quantities and susceptibilities; every (q, v, v\'); windows, meshes, symmetries and process counts in the bound',
     'no test builds the pairing vertex; a swapped index or missing momentum still yields a plausible gap',
     [pvf], [('get_chi_pp_from_aux, write_pairing_vertex_components, load_pairing_vertex_from_rank_files', pvf), ('build_pairing_vertex', pvf)])
prop('C21', 'The Eliashberg iteration solves the linearised gap equation',
     'One step applies the kernel 1/norm sum over k\', v\' of Gamma(k-k\'; v, v\')|G(k\', v\')|^2 gap(k\', v\') with periodic momenta; the eigenvalue is the '
     'Rayleigh quotient, the loop stops on the change of the eigenvalue or the count, further vectors are sought orthogonal to the '
     'earlier ones, and a negative leading eigenvalue is shifted away and added back.',
     'all pairing vertices, propagators, start vectors; every branch of up to three steps; meshes and windows in the bound',
     'no test runs the equation; a wrong fold of the momentum sum goes unnoticed on symmetric data',
     [eqf], [('EliashberPowerIteration', eqf), ('gram_schmidt, gram_schmidt_eliash, proj', eqf)], note='convergence of the iteration is outside')
prop('C22', 'Eliashberg start vectors and symmetrisation have the promised parity',
     'The start gap has the requested momentum symmetry and frequency parity, and the vertex handed to the iteration is '
     'symmetrised under exchange of v and v\' (with k to -k) with the sign of its spin channel before use; the propagator, norm and '
     'parameters handed over are those of the configuration. Unknown symmetries are refused.',
     'all vertices and propagators, all k (trigonometric functions of symbolic angles); meshes and windows in the bound',
     'no test covers it; wrong parity converges to a different, plausible solution',
     [eqf], [('get_gap_start, d_wave, p_wave_x, p_wave_y', eqf), ('linear_eliashberg, symmetrize_gamma', eqf)])
prop('C25', 'The vertex of the optical conductivity is stored and assembled faithfully',
     'Each process stores, for its momenta and every bosonic frequency of either sign, the slice (w\', v, v-w) of the ladder vertex; the '
     'assembled conductivity vertex is -1/2 of the density plus -3/2 of the magnetic full vertex at every momentum of the full zone.',
     'all ladder quantities and susceptibilities; every (q, w\', v); windows, meshes, symmetries and process counts in the bound',
     'no test covers it; positive and negative bosonic frequencies had been confused',
     [opt], [('write/load optics vertex, build_vertex_optics helpers', opt)])
prop('C26', 'The momentum-dependent full vertex is stored and assembled faithfully',
     'For every momentum of the full zone and all bosonic frequencies of either sign the stored and re-read components equal those of the '
     'process that computed them, and the assembled vertex is f1 + (1 - u chi) f2.',
     'all ladder quantities and susceptibilities; every (q, w, v, v\'); windows, meshes, symmetries and process counts in the bound',
     'no test covers the write / read cycle',
     [fp], [('write_vertex_components, load_vertex_from_rank_files, build_vertex_fq', fp)])
wan = 'src/dga/wannier.py'
prop('C23', 'The optical bubble is the velocity-weighted product of two propagators',
     'At every listed bosonic frequency the bubble part of the current correlation is -2/beta times the momentum mean of both band '
     'velocities (in the requested directions) and the product of the propagators at the two legs of the chosen frequency notation, '
     'summed over the requested window.',
     'all propagators, hopping amplitudes, temperatures; every listed frequency; meshes and windows in the bound',
     'tests evaluate one model to a tolerance', [opt], [('get_chijj_bubble, vec_get_chijj_bubble', opt), ('light_vertex', wan)])
prop('C24', 'The optical vertex correction sums every momentum transfer and frequency',
     'The vertex part of the current correlation is the documented sum over momentum transfer, internal bosonic and fermionic frequencies of '
     'velocities, four propagators and vertex, normalised by the full mesh, so the parts of different processes add up to the total; '
     'vertices whose frequencies do not fit are refused.',
     'all vertices, propagators, velocities, temperatures; meshes, transfers and windows in the bound',
     'no test evaluates it', [opt], [('get_chijj_vertex, vec_get_chijj_vert', opt)])
prop('C27', 'Mapping to and from the irreducible zone loses and mixes nothing',
     'For every mesh and symmetry set, points are identified only when a named symmetry relates them, a field on the irreducible points '
     'survives the way to the full zone and back, symmetric fields are restored exactly, and weighted irreducible means equal full means. '
     'Symmetrising averages over equivalent points.',
     'all complex fields; every mesh, symmetry set and layout in the bound, even and odd meshes',
     'tests compare a few index arrays; odd or anisotropic meshes and combined symmetries are where it breaks',
     [bz], [('inv_sym, x_y_sym, x_y_inv, apply_symmetries', bz), ('KGrid.set_irrk_maps, map_irrk2fbz, map_fbz2irrk, k_mean, symmetrize_irrk', bz)])
prop('C28', 'Momentum mesh layouts, shifts and slices address the right momentum',
     'Mesh, list and index views describe the same momenta in the same order; shifting by q or by pi moves each entry by exactly that '
     'momentum with periodic wrap; a momentum or plane is located at its nearest mesh point.',
     'all fields, all momenta to be located; meshes in the bound',
     'tests round-trip one or two shapes', [bz],
     [('KGrid.kmesh*, get_q_list, map_fbz_mesh2list, map_fbz_list2mesh', bz), ('shift_mat_by_pi, shift_mat_by_q, shift_mat_by_ind, find_q_ind, get_k_slice', bz)])
prop('C29', 'A path through the zone visits the mesh points of its straight segments',
     'A path string is translated to mesh points that follow the straight lines between its corners to within half a mesh spacing, stay '
     'inside the mesh, and map fields, momenta of each axis and sorted band energies to the right points; labels and ticks match the corners, and the point of a segment closest to the Fermi surface is found.',
     'all fields and axis values; corner sequences and meshes in the bound',
     'no test covers it', [bz], [('KPath, kpath_segment, get_k_point_from_string', bz), ('find_fermi_crossing', 'src/postproc/util.py')])
prop('C30', 'The Wannier Hamiltonian is the lattice sum of its hoppings',
     'H(k) is the weighted lattice sum of the hopping matrices at each momentum, Hermitian when the hoppings are; the light vertex is its '
     'momentum derivative; the model Hamiltonians give their documented dispersions and the real-space and momentum-space Emery model '
     'agree; each matrix element carries its own lattice vector and orbital numbers.',
     'all hopping amplitudes, weights and momenta; lattice vectors, orbitals and meshes in the bound',
     'tests compare single models numerically', [wan], [('convham, convham2, light_vertex, WannierHr', wan), ('model Hamiltonians, create_r_grid, create_orbs', wan)])
prop('C31', 'Analytic dispersions agree with the documented hopping model',
     'The closed-form dispersions on axes, lists and shifted momenta are the cosine series of the hopping table (first neighbours, '
     'diagonals, second neighbours in all directions), the velocity is their derivative, and they agree with the real-space models.',
     'all hopping amplitudes and momenta; meshes in the bound',
     'tests only use square-lattice tables', [wan], [('ek_3d, ek_3d_klist, ekpq_3d, ek_square, del_ek_del_kx_square', wan), ('one_band_2d_* tables', wan)])
mpi, cfgf = 'src/dga/mpi_aux.py', 'src/dga/config.py'
prop('C32', 'Work distributed over processes is complete, disjoint and reassembled in order',
     'For every number of tasks and processes each task belongs to exactly one process and loads differ by at most one; scattering and '
     'gathering are inverse and keep the order, reductions and broadcasts give every process the same total or root data, and each process '
     'keeps its own file.',
     'all data; every number of tasks and processes in the bound, every root',
     'tests cover few sizes and a single process', [mpi], [('MpiDistributor', mpi)], over=('inputs', 'configurations', 'number of processes'))
prop('C33', 'Frequency boxes, ranges and symmetries follow from the configuration',
     'Given values are kept, open ones are inferred so that every later window fits the data (core boxes, asymptotic box, optics ranges), '
     'requests larger than the data and unknown names are refused, and every section reaches its own part of the configuration.',
     'all integer box sizes in the stated ranges, every combination of given and open values',
     'tests use a single configuration', [cfgf], [('BoxSizes, OpticsConfig.set_frequency_ranges, LatticeConfig, EliashbergConfig, DgaConfig', cfgf)])
sy, w2f, ioo, acf, mff = ('src/dga/symmetrize.py', 'src/dga/w2dyn_aux_dga.py', 'src/dga/dga_io.py', 'src/dga/analytic_continuation.py',
                          'src/dga/matsubara_frequencies.py')
prop('C34', 'Symmetrised vertex files contain the equivalent-component average of the data',
     'Every density and magnetic component written equals the average of the measured spin-band components related by spin rotation and '
     'by the declared orbital equivalence, with the documented channel combination; missing or invalid samples do not leak into other '
     'components, and reading the file back returns exactly these values, for two- and one-particle data.',
     'all measured values of every component, frequency and atom; band numbers, symmetry declarations and windows in the bound',
     'no test covers it', [sy, w2f], [('sym_g2 functions, get_worm_components, single-particle symmetrization', sy), ('g4iw_file readers', w2f), ('main', 'src/cli/sym1b.py')])
prop('C35', 'The DMFT input is loaded with its documented meaning',
     'Every quantity loaded from the DMFT and exact-diagonalisation files is the spin-averaged, symmetrised and windowed entry it is '
     'documented to be, sizes follow the data and the configuration, and unknown file types are refused.',
     'all file contents; file types, band numbers and windows in the bound',
     'tests would need files of every kind', [ioo, w2f, lo := 'src/dga/local_four_point.py'],
     [('load_1p_data, load_g2, create_dmft_ddict', ioo), ('w2dyn_file, g4iw_file', w2f), ('get_chi, build_g2_obj', lo)])
prop('C36', 'Frequency meshes, Kramers-Kronig relation and low-frequency fits are exact rules',
     'Real-frequency meshes are increasing, span the requested range and are symmetric for symmetric ranges; the Kramers-Kronig and '
     'real-to-imaginary transforms are the documented quadratures with exact limits; the extrapolation to zero frequency reproduces every '
     'polynomial of the fit order at every momentum; unknown kinds are refused.',
     'all spectra, frequencies, range limits and polynomial coefficients; mesh sizes and orders in the bound',
     'tests run single continuations to tolerance', [acf, ioo, 'src/ana_cont/continuation.py', 'src/ana_cont/kernels.py'],
     [('get_w_mesh, kkt, transform_from_real_to_imag, get_gamma_bandshift_z, check_filling', acf), ('poly_fit', ioo)])
prop('C37', 'Continuation hands the right problem to the solver and keeps entries apart',
     'Every entry is continued with its own non-negative Matsubara data, the right frequencies, errors, mesh and a default model normalised '
     'to its sum rule; results are the retarded function or Im chi of its spectrum, failed entries are zero without touching others, and '
     'the continuation program maps every momentum back independent of the number of processes, with the user\'s settings.',
     'all data, temperatures and mesh limits; mesh sizes, frequency numbers, failing entries, grids and process counts in the bound',
     'tests continue one smooth function on one process', [acf, 'src/dga/dga_max_ent.py', cfgf],
     [('MaxEnt, mpi_ana_cont, max_ent, max_ent_loc_bw_range', acf), ('main', 'src/dga/dga_max_ent.py'), ('MaxEntConfig', cfgf)])
prop('C38', 'Real-frequency propagators and conductivity bubble follow from the self-energy',
     'The real-frequency propagator solves the Dyson equation at every momentum, its filling is the occupied spectral weight of both spins, '
     'a requested filling defines the chemical potential, and the bubble conductivity is the velocity-weighted overlap of the spectral '
     'function with the propagator at the shifted frequencies on any mesh, even in frequency.',
     'all self-energies, dispersions, hoppings and temperatures; uniform, non-uniform and asymmetric meshes in the bound',
     'no test covers it', ['src/dga/two_point.py', opt], [('RealFrequencyGF, get_filling_real_f, opt_func', 'src/dga/two_point.py'), ('get_giwk, get_filling, adjust_mu', 'src/postproc/real_frequency_two_point.py'),
                                                   ('vec_get_chijj_bubble_realf, get_sigma_from_chijj_realf', opt)])
prop('C39', 'The program feeds each step the right data and stores the right results',
     'A run passes to every step (local vertex, ladder, lambda correction, Schwinger-Dyson, filling, gap equation, conductivity, fits, '
     'continuation) the data of the documented flow, momentum by momentum, stores under each documented name the quantity belonging to it, '
     'does exactly the requested parts, and gives the same results for every number of processes and every schedule, without deadlock.',
     'all DMFT data and kernel results; lattices, boxes, options, process counts and schedules in the bound',
     'tests do not run the program; schedules and process counts need an argument over all of them',
     ['src/dga/dga_main.py', 'src/dga/high_level_routines.py', cfgf, ioo],
     [('main', 'src/dga/dga_main.py'), ('set-up routines', cfgf), ('MpiDistributor', 'src/dga/mpi_aux.py')],
     )
prop('C40', 'The spectrum sought is the stationary point of entropy minus misfit',
     'The equations solved are the exact derivative of alpha S - chi^2/2 within the retained singular vectors and the Jacobian is their '
     'derivative, for positive and for signed spectra, for independent and for correlated errors; misfit, entropy, norm, Bayesian quantities '
     'and back transform have their documented form, Newton steps keep roots fixed, blurred kernels are the Gaussian average, and alpha is '
     'annealed, solved for (historic, classic), averaged over (Bryan) or fitted (chi2kink) as documented.',
     'all data, errors, default models, kernels and singular factors; sizes in the bound',
     'tests only compare final spectra to tolerance', ['src/ana_cont/solvers.py', 'src/ana_cont/kernels.py'],
     [('MaxentSolverSVD, NewtonOptimizer', 'src/ana_cont/solvers.py'), ('Kernel.preblur', 'src/ana_cont/kernels.py')])
prop('C41', 'Hamiltonians survive their text files',
     'A real-space Hamiltonian written to a file and read back has the same vectors, weights, orbitals and, to the six printed decimals, '
     'hoppings, for any number of weights; files of other programs are read entry by entry with their vector and orbitals; H(k) written for '
     'a mesh is read back at its momenta; orbital and spin indices, headers, missing and surplus momenta are treated as documented.',
     'all hoppings (below 1000 in modulus); numbers of vectors, orbitals, momenta and weight columns in the bound',
     'one file of each kind is compared in the tests', ['src/dga/wannier.py'],
     [('read_hr_w2k, write_hr_w2k, read_hk_w2k, write_hk_wannier90, WannierHr.save_hr/save_hk', 'src/dga/wannier.py')])
prop('C42', 'Pade continuation interpolates the data and is exact for rational functions',
     'The continued fraction passes through every datum and continues sums of poles exactly; the linear system of the matrix variant and the '
     'deviation and derivative of the least-squares variant are those of the quotient; columns are continued separately, negative '
     'frequencies mirrored, and the mean is over the physical continuations closest to the others.',
     'all data, frequencies, coefficients; numbers of data and poles in the bound',
     'no test covers it', ['src/dga/pade_aux.py', 'src/ana_cont/continuation.py'],
     [('PadeSolver, padeThiele, padeMatrix, padeNonlinear, acPade, pick_points, pade', 'src/dga/pade_aux.py'),
      ("AnalyticContinuationProblem.solve(method='pade')", 'src/ana_cont/continuation.py')])
prop('C43', 'Continuation problems of every kind keep their units and kernels',
     'Every kernel is the spectral representation of its function, including its limits at zero frequency; a problem in imaginary time is '
     'solved at unit temperature and its spectrum and back transform come back in the units of the caller; particle-hole symmetric data may be '
     'the imaginary part or imaginary numbers, other data and unknown kinds are refused; a hidden spectrum is averaged with the Gaussian.',
     'all meshes, temperatures, imaginary times and frequencies, data and spectra; mesh sizes in the bound',
     'tests continue one bosonic function', ['src/ana_cont/kernels.py', 'src/ana_cont/continuation.py'],
     [('Kernel', 'src/ana_cont/kernels.py'), ('AnalyticContinuationProblem', 'src/ana_cont/continuation.py')])

prop('C44', 'Settings are read, recorded and filed as they are used',
     'Every process works with the settings of the file named on the command line; the records written next to the results hold every setting with '
     'the value in use (numbers, lists, dictionaries and open values alike); results of one run go to one new folder, made once and known to every '
     'process, whatever the folder already contains; stored results come back unchanged and only the file named is removed.',
     'all values of the settings, all contents of the folder and orders of the processes in the bound', 'no test writes or reads a configuration',
     [cfgf, 'src/dga/util.py'],
     [('parse_config_file, save_config_file, ConfigBase, OutputConfig, MaxEntConfig', cfgf), ('uniquify', 'src/dga/util.py')])

prop('C45', 'Figures show the data at the momentum and frequency they name',
     'Every pixel and every point of a line of the figures stored by the program is the datum at the momentum, frequency or path point marked on '
     'its axes, with the label and title of that quantity, whichever mesh is used; a figure is stored once under its own name and closed.',
     'all data; meshes, ranges, frequencies and paths in the bound',
     'tests do not look at figures', ['src/dga/plotting.py', 'src/dga/high_level_plotting.py'],
     [('plot_kx_ky, plot_gap_function_kx_ky, plot_cont_fs, plot_cont_fs_no_shift, plot_siwk_extrap, chi_checks, sigma_loc_checks, plot_oz_fit',
       'src/dga/plotting.py'), ('plot_real_frequency_dispersion, plot_chi_along_kpath', 'src/dga/high_level_plotting.py'),
      ('LocalFourPoint.plot', 'src/dga/local_four_point.py'), ('figures of the vertex', 'src/dga/four_point.py'), ('figures of the optical vertex', 'src/dga/optics.py'),
      ('figures of the pairing vertex', 'src/dga/pairing_vertex.py')])
prop('C46', 'No computation changes the data it is given or has returned',
     'Whatever is computed, the arrays, meshes, Green\'s functions, vertices and settings handed to a routine hold the same numbers afterwards, and '
     'so do the arrays handed to an object when it was made and every result returned earlier; only the symmetrisation of a mesh and the setters of single hopping '
     'elements, which are documented to work in place, change their argument.',
     'all data; the scenarios and sizes of the other checks',
     'a caller that uses its data a second time gets a wrong answer; tests use everything once',
     ['src/dga', 'src/ana_cont'],
     [('every public routine that takes arrays: two_point, bubble, four_point, local_four_point, hk, optics, brillouin_zone, ...', 'src/dga'),
      ('kernels, solvers and pre-processing', 'src/ana_cont')])

prop('C47', 'The log gives the time and memory of every step and has one writer',
     'Every call of the logger leaves one line in a log newly made by the first process and none by the others: the line names its subject and gives the time '
     'since the start, the time since the previous task (messages and memory reports do not count as tasks) and the memory of all copies of the object, '
     'as it is held.',
     'all sequences of calls in the bound, all times, sizes and numbers of copies', 'tests do not read the log',
     ['src/dga/loggers.py', 'src/dga/util.py', 'src/dga/two_point.py', 'src/dga/local_four_point.py'],
     [('MpiLogger, RealTime', 'src/dga/loggers.py'), ('mem', 'src/dga/util.py'), ('GreensFunction.size, itemsize, mem', 'src/dga/two_point.py'),
      ('LocalNPoint.size, itemsize', 'src/dga/local_four_point.py')])


prop('C48', 'Results depend on what is asked, not on what was computed before',
     'A computation gives the same answer in a fresh process as in one that has already done the same or another computation with other data, sizes or '
     'options: nothing remembered from an earlier mesh, Green\'s function, vertex, kernel, configuration or file enters a later result.',
     'all data of the earlier and the later computation; the scenarios, sizes and pairs of scenarios in the bound',
     'tests compute every quantity once per process',
     ['src/dga', 'src/ana_cont'],
     [('every public routine: two_point, bubble, four_point, local_four_point, optics, brillouin_zone, wannier, config, ...', 'src/dga'),
      ('kernels, solvers and pre-processing', 'src/ana_cont')])
