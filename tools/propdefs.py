"""Property definitions (see props.py)."""
from props import U, K, M, T, F, IO, MAIN, FD, TT, VN

ALLSRC = [M, U, K, T, F]
INP = ['inputs', 'configurations']
AI = 'abstract interpretation of the source'
RELNOTE = (
    'Decides the equality for every input of the path classes walked (fully '
    'symbolic coordinates, layer parameters and frequencies; layer counts, '
    'layer positions and options as listed in DESIGN.md). Equality is modulo '
    'field axioms, exp/cos/sin addition theorems and parity rules, other '
    'functions uninterpreted, with a hashing collision chance below 1e-15; '
    'floating-point rounding is outside. Undecided comparisons stay quiet '
    'and are counted in the evidence.')
EFFNOTE = (
    'May-analysis over all paths of every public entry point and option '
    'combination listed in DESIGN.md; numpy/scipy are modelled by effect and '
    'aliasing summaries.')


def define(P):
    P('C01', 'Arguments handed in by the caller are never modified',
      'No modelling, transform, filter or I/O routine changes an array, list '
      'or dictionary that the caller passed in: after any call, whatever its '
      'options and outcome, every argument still has exactly the value it had '
      'before.',
      INP, 'all public routines, all argument containers, all option '
      'combinations, also when the call raises',
      'A test compares results, not arguments; in-place work shows only for '
      'particular containers, dtypes and options (e.g. arrays instead of '
      'lists).',
      ALLSRC + [IO, FD, TT],
      [('np.array copies in _check_var', U), ('copies of htarg/ftarg', U),
       ('copy of the input in fftlog/qwe', T)],
      AI + ': ownership labels propagated through views and aliases; every '
      'in-place operation is an obligation', EFFNOTE)
    P('C02', 'Results depend on the arguments only, not on earlier calls',
      'Calling a modelling routine again with the same arguments gives the '
      'same result, whatever was computed before: no routine leaves state '
      'behind that alters later calls, except the documented minimum values '
      'set through their setter, and no result depends on time, random '
      'numbers, uninitialised memory or the file system.',
      ['histories', 'inputs'], 'all sequences of public calls',
      'Histories are unbounded; the tests run each call in one fixed order '
      'in one process.',
      ALLSRC + [IO, TT],
      [('module-level minima', U), ('filter cache', F),
       ('default arguments', M)],
      AI + ': effect analysis of shared objects plus taint of '
      'non-deterministic sources', EFFNOTE)
    P('C03', 'Verbosity only affects what is printed',
      'The returned values and the raised errors of every routine are the '
      'same for every verbosity level, and at the lowest level (0) nothing '
      'is printed, also not when warnings apply.',
      INP, 'all public routines and all verbosity levels',
      'Tests fix the level per case and never compare levels across options.',
      ALLSRC + [TT],
      [('verb tests around print', U)],
      AI + ': data and control dependence on a symbolic verbosity level, '
      'reachability of output statements',
      EFFNOTE + ' Deprecation warnings issued through the warnings module '
      'are not counted as output.')
    P('C04', 'Every Hankel transform evaluates the same wavenumber integral',
      'With digital filters (standard, lagged, splined), quadrature with '
      'extrapolation (QWE) or adaptive quadrature (QUAD) the response is the '
      'documented discretisation of one and the same Hankel integrals: the '
      'kernels PJ0, PJ1 and PJ0b, each with its Bessel function, angle '
      'factor, filter weights or quadrature nodes, divided by the offset, '
      'for every configuration, offset, azimuth and frequency; QWE returns '
      'the converged extrapolation.',
      INP, 'all Hankel transforms and their options, all 36 source-receiver '
      'configurations, zero and non-zero offsets, several offsets and angles',
      'Tests compare stored numbers of few models to loose tolerances; an '
      'error in one option or in one term stays below them.',
      [T, M, K], [('hankel_dlf', T), ('dlf', T), ('hankel_qwe', T),
                  ('hankel_quad', T), ('quad', T), ('qwe', T),
                  ('get_dlf_points', T)],
      VN, RELNOTE + ' Accuracy of the discretisation is not decided (C90).')
    P('C06', 'Mirror symmetry with respect to vertical planes',
      'Mirroring source, receiver and their orientations at a vertical plane '
      'leaves the computed electric response unchanged and reverses the sign '
      'for a magnetic source or a magnetic receiver (pseudovectors), for '
      'every component pair, bipole length and orientation, and layered '
      'model.',
      INP, 'all component pairs, point and finite bipoles, layer models, '
      'analytical solutions',
      'The tests sample a few geometries and compare with stored numbers.',
      [M, U, K], [('angle_factor', K), ('get_geo_fact', U),
                  ('get_azm_dip', U), ('fullspace/halfspace', K)],
      VN, RELNOTE)
    P('C07', 'Translation invariance',
      'Only relative positions matter: shifting source and receiver together '
      'horizontally, or source, receiver and all interfaces together '
      'vertically, does not change any response.',
      INP, 'all component pairs, bipoles, entry points, layer models',
      'The tests use fixed positions; none repeats a case at a shifted '
      'place.',
      [M, U, K, TT], [('get_off_ang', U), ('get_layer_nr', U),
                      ('fields/greenfct', K)],
      VN, RELNOTE)
    P('C09', 'Bipole responses are sums of elementary dipole responses',
      'An arbitrarily oriented bipole is the superposition of the elementary '
      'dipoles along its direction cosines, for source and receiver, and a '
      'bipole of finite length is the length-normalised quadrature sum over '
      'the points along the straight wire from its first to its second '
      'electrode (one point: its centre).',
      INP, 'all azimuths and dips (including axis-parallel and vertical '
      'ones), point and finite bipoles, electric and magnetic, all layer '
      'positions',
      'Tests sample a few orientations; sign and branch errors of single '
      'quadrants or special directions survive.',
      [M, U, K], [('get_azm_dip', U), ('get_geo_fact', U), ('get_abs', U),
                  ('bipole loops', M)],
      VN, RELNOTE)
    P('C11', 'Equivalent descriptions of a model give equal responses',
      'Layers listed top-down or bottom-up, optional parameters omitted or '
      'given as their documented default, infinite boundaries given or not, '
      'lists, tuples or arrays, a full-space given in any of the documented '
      'ways: every entry point computes the same response.',
      INP, 'all entry points, layer counts, optional parameters',
      'The tests compare the checked parameters for some inputs, not the '
      'responses for all pairs of descriptions.',
      [U, M], [('check_model', U), ('_check_depth/_check_var', U)],
      VN, RELNOTE)
    P('C12', 'Strength, length and type of sources and receivers are factors',
      'A source strength scales the response linearly (with its sign) and '
      'switches the normalisation by the lengths of source and receiver off; '
      'the types magnetic dipole, electric current density and loop are the '
      'plain responses times the documented factor (i omega mu of the layer, '
      'conductivity of the layer).',
      INP, 'all strengths (zero, positive, negative), bipole lengths, types, '
      'layer positions of source and receiver, frequency and time domain',
      'Tests sample few combinations of types, layers and strengths.',
      [M, U], [('scaling in bipole', M), ('get_azm_dip', U),
               ('msrc/mrec factors', M)],
      VN, RELNOTE)
    P('C13', 'Time-domain responses are the documented Fourier transforms',
      'Impulse, switch-on and switch-off responses are 2/pi times the sine '
      'or cosine transform of the frequency response E, or of E divided by i '
      'omega, with the documented sign, for every Fourier transform method '
      'and every entry point; frequencies demanded of the kernel are those '
      'the transform uses.',
      INP, 'all signals, kinds, Fourier transforms and entry points',
      'Tests compare stored numbers and cannot see a pairing that is '
      'consistently wrong for an untested combination.',
      [M, T, U], [('tem', M), ('check_time', U), ('fourier_*', T)],
      VN, RELNOTE + ' For the digital filter the transform itself is '
      'compared; for the others the transformed quantity.')
    P('C14', 'Every Fourier transform evaluates its documented formula',
      'The transient is the documented discretisation of the sine or cosine '
      'integral of the spectrum: filter sums (standard, lagged, splined), '
      'quadrature between the zeros of sine or cosine with extrapolation '
      '(QWE) or adaptive quadrature, the logarithmic FFT with its '
      'coefficients and grids, and the FFT of the Hermitian spectrum, for '
      'every spectrum, number of times and option.',
      INP, 'all Fourier transforms with their options (spectra symbolic), '
      'impulse, switch-on and switch-off, one to three times',
      'The tests evaluate each method for one spectrum and default options; '
      'odd sizes, biases and mixed decisions per time are not exercised.',
      [T, M, U], [('fourier_dlf', T), ('fourier_qwe', T),
                  ('fourier_fftlog', T), ('fourier_fft', T),
                  ('get_fftlog_input', T), ('check_time', U)],
      VN, RELNOTE + ' Accuracy of the discretisation is not decided (C90).')
    P('C15', 'Each entry of a survey result is that single computation',
      'A call with several frequencies or times, receivers and sources '
      'returns, at [i, j, k], the response of frequency i, receiver j and '
      'source k computed alone; order, loops (loop=None, src, rec, off, '
      'freq), depths and shapes of the inputs do not matter.',
      INP, 'numbers of sources, receivers, frequencies; same or distinct '
      'depths; point and finite bipoles; loop options',
      'Tests compare a few layouts; ordering errors need particular '
      'combinations of several sources, receivers and depths.',
      [M, U, K], [('loops and reshaping in bipole', M), ('get_off_ang', U),
                  ('loop flags', M)],
      VN, RELNOTE + ' One to three sources and receivers, one or two '
      'frequencies.')
    P('C17', 'Convenience routines are the documented combinations',
      'dipole is bipole with point dipoles along the axes, loop is bipole '
      'with a loop source, ip_and_q is the real and imaginary part of '
      'scale*Hs/Hp of the documented coil pairs, and gpr is the transform of '
      'the dipole response times a Ricker wavelet with the documented gain; '
      'every model parameter and option reaches the computation unchanged.',
      INP, 'all wrapper routines, component pairs, options and model '
      'parameters',
      'A parameter that is not handed on, or is handed on wrongly, shows only '
      'with a non-default value of that parameter in that wrapper.',
      [M, U], [('dipole', M), ('loop', M), ('ip_and_q', M), ('gpr', M)],
      VN, RELNOTE)
    P('C23', 'Source-receiver reciprocity',
      'Exchanging source and receiver (positions, orientations, lengths and '
      'types) leaves the response unchanged if both are electric or both '
      'magnetic, and reverses its sign if one is electric and one magnetic, '
      'in every layered anisotropic model.',
      INP, 'all 36 component pairs, point and finite bipoles, all layer '
      'positions of source and receiver',
      'The internal code exchanges source and receiver for some component '
      'pairs, so a sign error is consistent inside one test; tests sample '
      'few layer positions.',
      [M, U, K], [('ab mapping in check_ab', U), ('greenfct/fields', K),
                  ('angle_factor', K)],
      VN, RELNOTE)
    P('C24', "The layered fields solve Maxwell's equations",
      'In the wavenumber domain the computed field is the solution of '
      "Maxwell's equations in the layered medium: tangential fields are "
      'continuous across every interface, waves decay away from the '
      'interfaces in the outer half-spaces, and the source has the strength '
      'and sign documented; for all 36 component pairs and every position of '
      'source and receiver.',
      INP, 'all component pairs, layer parameters (vertical transverse '
      'isotropy in resistivity, permittivity and permeability), numbers of '
      'layers and layer positions',
      'Stored reference values cover few models and layer positions; the '
      'recursions branch on the position of source and receiver.',
      [K, U, M], [('reflections', K), ('fields', K), ('greenfct', K),
                  ('check_frequency', U), ('dipole_k', M)],
      VN, RELNOTE + ' Compared with an independent transmission-line '
      'formulation (vstat/spec.py), up to four layers (five: thorough).')
    P('C25', 'Fictitious interfaces do not matter',
      'Splitting a layer by an interface with the same material on both '
      'sides does not change any response, wherever the interface is '
      'relative to source and receiver.',
      INP, 'all component pairs, all positions of the interface relative to '
      'source and receiver, layered models',
      'The recursions branch on the number of layers and their position; '
      'tests sample few pairs of models.',
      [K, U, M], [('reflections', K), ('fields', K), ('get_layer_nr', U)],
      VN, RELNOTE)
    P('C26', 'Turning model and survey upside down',
      'Negating all depths (interfaces, reversed layer order, source, '
      'receiver, dips) gives the same electric response, with the sign '
      'reversed for each magnetic source or receiver: upward and downward '
      'directions are treated alike.',
      INP, 'all component pairs, bipoles, 2-4 layers, all layer positions of '
      'source and receiver',
      'Up- and down-going parts are separate code paths; the tests contain '
      'no upside-down twin of any case.',
      [K, M, U], [('reflections: plus/minus', K), ('fields: up/down', K),
                  ('check_model depth handling', U)],
      VN, RELNOTE)
    P('C27', 'Azimuthal isotropy',
      'Rotating the whole survey about a vertical axis (positions and '
      'azimuths of source and receiver) does not change any response of an '
      'arbitrarily oriented source-receiver pair; components along fixed '
      'axes transform like vector components.',
      INP, 'quarter and half turns for all component pairs and bipoles; any '
      'angle in polar geometry',
      'Tests use a handful of azimuths.',
      [M, U, K], [('get_off_ang', U), ('angle_factor', K),
                  ('get_geo_fact', U)],
      VN, RELNOTE + ' Rotation by an arbitrary angle is decided with the '
      'offset and the source-receiver angle as inputs.')

    P('C30', 'The analytical solutions are the closed-form solutions',
      'analytical returns the exact field of a dipole in a homogeneous '
      'anisotropic full space (all 36 pairs, frequency and Laplace domain) '
      'and, for the diffusive solutions, the closed-form half-space response '
      'below air, split into direct and reflected TE and TM parts and the '
      'airwave, in the frequency, Laplace and time domain (impulse, '
      'switch-on, switch-off); permittivity and permeability are ignored by '
      'the diffusive ones, the parts sum up to the total, and each entry of a '
      'survey is the single response.',
      INP, 'all component pairs, solutions, domains, source above or below '
      'the receiver',
      'The tests compare single configurations with stored values; terms '
      'that vanish or hardly contribute there can be wrong.',
      [M, K, U], [('analytical', M), ('fullspace', K), ('halfspace', K)],
      VN, RELNOTE + ' Roots are those of positive numbers; the reference is '
      'derived by differentiating scalar potentials (jets). The switch-on '
      'airwave is the documented Gaver-Stehfest sum (K=16).')

    P('C29', 'TM and TE parts of tmtemod are the documented contributions',
      'tmtemod.dipole returns, for every layer of a layered model holding '
      'source and receiver, the five TM and five TE contributions (reflected '
      'up/down combinations and direct field) of the in-line electric field '
      'without the non-physical contribution at zero wavenumber; the ten parts '
      'sum up to the field dipole returns, each entry of a survey is the '
      'single response, and models it cannot handle are rejected.',
      INP, 'all models with 2 to 4 (thorough: 5) layers, all source layers, '
      'receiver above, below, and level with the source, frequency and '
      'Laplace domain',
      'The correction terms cancel in the sum; an error in one of them, or in '
      'a part that vanishes in the tested model, goes unnoticed.',
      ['empymod/scripts/tmtemod.py', K], [('dipole',
                                           'empymod/scripts/tmtemod.py'),
                                          ('greenfct',
                                           'empymod/scripts/tmtemod.py')],
      VN, RELNOTE + ' Parameters are such that all square roots are those of '
      'positive numbers. Bound: one digital filter (key_201_2012) with '
      'abstract coefficients, at most 5 layers.')

    # ---------------------------------------------------- not applicable
    na(P)


def na(P):
    TXT = ('Files are texts held by the analysis; symbolic numbers are '
           'written as 17-digit markers and recognised when read back, so '
           'lost digits, order, signs and shapes show up for all values. '
           'Number formatting and parsing of Python/numpy are trusted.')
    P('C16', 'Stored data, inputs and filters are read back as they were',
      'load_data returns exactly what save_data was given - shape, real or '
      'complex, every value to full precision - in the txt and the json '
      'format and whatever the info text; load_input returns the input given '
      'to save_input (arrays as nested lists, complex numbers as stacked real '
      'and imaginary parts, filters as their names); DigitalFilter.fromfile '
      'restores what tofile wrote. Saving replaces the named file, touches no '
      'other one and does not change the data; unknown formats and data that '
      'are not 3D are rejected before anything is written.',
      INP, 'all data, shapes, inputs and file names',
      'A test stores a few arrays; precision, order of the axes, unusual '
      'shapes, types and texts are not sampled.',
      [IO, F], [('save_data/load_data', IO), ('save_input/load_input', IO),
                ('tofile/fromfile', F)],
      AI + ' over abstract files: value numbers of the cells before saving '
      'and after loading are compared', TXT)

    P('C20', 'Filters are those of libdlf, under the documented names',
      'Every filter name of libdlf is an attribute of Hankel() or Fourier() '
      'and gives one DigitalFilter object per name with the base and the '
      'coefficients of libdlf under their names and the ratio of the first '
      'two base points as factor, independently of what was accessed before; '
      'unknown names raise AttributeError; the deprecated functions warn and '
      'return the filter they name. A filter given by name, as object or as '
      'own DigitalFilter with the same numbers gives the same field, omitting '
      'it selects the documented default, and filters without the required '
      'coefficients are rejected.',
      ['inputs', 'histories'], 'all filters, orders of access and DLF types',
      'The tests look at a few filters, each in one order of access.',
      [F, U, T], [('lazy loading and cache', F), ('check_hankel', U),
                  ('check_time', U)],
      AI + ' with a symbolic filter library, value numbers compared', RELNOTE)

    P('C21', 'The command line computes what the routine computes',
      'empymod ROUTINE INPUT OUTPUT stores in OUTPUT exactly the response '
      'that ROUTINE returns for the keywords in INPUT, always as '
      '(nfreqtime, nrec, nsrc), for arguments given to main or taken from '
      'the command line; without OUTPUT it prints the response. Errors of '
      'the input (missing file, wrong values, unknown keywords or formats) '
      'are returned as exit status and leave no output; wrong usage, '
      '--version and --report never compute.',
      INP, 'all routines, surveys and argument lists',
      'The tests run the command on one input and compare with stored text.',
      [MAIN, IO, M], [('main', MAIN), ('run', MAIN)],
      AI + ' over abstract files and the argument parser built by the '
      'source, value numbers of stored and returned cells compared', TXT)

    P('C10', 'Invalid input is rejected, valid input accepted',
      'The modelling routines raise an error, before computing anything, for '
      'input that the documentation excludes: depths that are not strictly '
      'monotonic, layer parameters or positions of inconsistent sizes, '
      'unknown components, methods, filters, kinds, signals, solutions or '
      'keywords, options of the wrong shape, magnetic components in '
      'solutions that do not support them; and they accept every documented '
      'form of valid input (scalars, lists, vectors, wires, all 36 '
      'components, all methods).',
      INP, 'all routines and argument forms',
      'Each test tries a handful of bad calls of the check functions alone.',
      [M, U, TT], [('check_ab, check_bipole, check_dipole, check_model, '
                    'check_hankel, check_time, check_solution', U),
                   ('dipole, bipole, loop, analytical, dipole_k, ip_and_q',
                    M)],
      AI + ': each routine called with one abstract argument replaced, '
      'raise or return decided', VN)

    P('C35', 'Leaving an option out is giving its documented default',
      'For every option of the modelling routines and of the Hankel and '
      'Fourier transforms, omitting it gives the same response (and output) '
      'as giving the documented default; given options reach the transform '
      'unchanged under their own name, in any order, and the documented '
      'dependent default holds (ntot a power of two not below nfreq).',
      INP, 'all options, all methods, all signals',
      'Tests compare a few default dictionaries of the check functions.',
      [M, U, TT], [('dipole, bipole, loop, analytical, dipole_k', M),
                   ('check_hankel, check_time, get_kwargs', U)],
      AI + ' of the routines with and without the option, responses and '
      'transform arguments compared by value number', VN)

    P('C34', 'Arbitrary waveforms are the sum over their segments',
      'For a waveform given by nodes and amplitudes, the response of every '
      'time-domain routine equals the Gauss-Legendre quadrature, over the '
      'segments that have started (cut at the wanted time), of the chosen '
      'signal response weighted with the slope of the current; segments '
      'without change do not contribute, every receiver-source pair is '
      'treated alike, order and repetition of times do not matter, and times '
      'all before the waveform are an error.',
      INP, 'all waveforms, times, signals and numbers of quadrature points',
      'One test compares a single waveform with stored numbers.',
      [U, M], [('check_waveform, check_time_only', U),
               ('tem, bipole, dipole, loop', M)],
      AI + ': response for a waveform compared, by value number, with the sum '
      'over the routine\'s own responses at the quadrature times', VN)

    P('C22', 'Values below the settable minima count as the minima',
      'set_minimum changes exactly the minima it is given and get_minimum '
      'returns the ones in force; in every routine, frequencies, times '
      '(also those of a waveform), offsets, horizontal and vertical '
      'resistivities below their minimum give the response of the minimum, '
      'offsets in the direction they had, direction factors below the '
      'minimum angle drop out, values at or above are untouched, and a '
      'replaced value is reported at verbosity 1; setting the minima back '
      'restores the responses.',
      INP, 'all minima, values and routines',
      'Tests set the minima once and check the check functions on one value.',
      [U, M], [('set_minimum, get_minimum, check_frequency, check_time_only, '
                'check_waveform, check_model, get_off_ang, get_geo_fact', U)],
      AI + ': responses under raised minima compared, by value number, with '
      'responses for the minimum itself', VN)

    P('C90', 'Accuracy of the Hankel and Fourier transforms',
      'The numerical transforms (digital filters, quadrature with '
      'extrapolation, adaptive quadrature, FFT based) approximate the exact '
      'integrals to the requested tolerance, and agree with each other and '
      'with closed-form solutions to within that tolerance.',
      INP, 'all smooth inputs, all transforms and tolerances',
      'Tests compare single points with stored values.',
      [T], [('dlf, qwe, quad, fftlog, fft', T)],
      na='Quantifies over numerical values and approximation errors of '
      'filter coefficients and quadrature; no sound static bound in reach. '
      'The structural clauses are decided by other properties (assembly of '
      'the kernels C04, pairing of the transforms C13).')
    P('C91', 'Causality and late-time behaviour of transient responses',
      'Computed step and impulse responses are causal, and the switch-on '
      'and switch-off responses approach the direct-current value and zero, '
      'respectively.',
      INP, 'all models and times',
      'Tests sample a few times.', [T, M], [('tem', M)],
      na='A property of computed numbers (limits of numerical transforms), '
      'not of the shape of the code.')
    P('C92', 'Decay, passivity and boundedness of frequency-domain fields',
      'In a passive medium the fields decay with increasing offset and no '
      'finite physical input yields NaN or infinity.',
      INP, 'all physical models and geometries',
      'Tests sample few models.', [K, M], [('greenfct', K)],
      na='Needs value ranges of exponentials and recursive reflection '
      'coefficients with cancellation; a sound static argument (interval '
      'analysis) only yields unknown for nearly all inputs.')
    P('C93', 'Optional optimisations are worthwhile',
      'Vectorised, splined and lagged-convolution variants are never slower '
      'than the plain loops they replace and stay within memory.',
      ['configurations'], 'all survey sizes', 'Tests do not time.',
      [T, M], [('loop flags', U)],
      na='A performance property; timing is outside static analysis of the '
      'source.')
