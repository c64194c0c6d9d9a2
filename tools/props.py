"""Source of properties.jsonl and MANIFEST.json (run tools/gen.py)."""
P = []      # (id, title, statement, over, quantifier text, why tests can't, files, mechanism, level_note)
NA = []     # same without level note, plus reason


def prop(id, title, statement, text, why, files, mech, note, over=('inputs',)):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why,
                  files=files, mech=mech, note=note))


def na(id, title, statement, text, why, files, mech, reason, over=('inputs',)):
    NA.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why,
                   files=files, mech=mech, reason=reason))


ROT = ['dolfyn/rotate/api.py', 'dolfyn/rotate/base.py', 'dolfyn/rotate/vector.py',
       'dolfyn/rotate/signature.py', 'dolfyn/rotate/rdi.py']
ROTM = [('frame walk', 'dolfyn/rotate/api.py:rotate2'), ('beam/inst', 'dolfyn/rotate/base.py:_beam2inst'),
        ('inst/earth', 'dolfyn/rotate/{vector,signature,rdi}.py:_inst2earth'), ('earth/principal', 'dolfyn/rotate/base.py:_earth2principal')]
TF = ('The rotation tests compare one recorded file per instrument with a stored netCDF file (and cannot run here: the '
      'data files are absent); they sample a handful of attitudes out of a continuum.')

prop('R01', 'Frame rotations round-trip and do not depend on the path taken',
     'Rotating velocity data from any coordinate frame to any sequence of frames and back restores the data, and the values '
     'in a frame do not depend on the frames visited on the way. This holds for every instrument make, mounting direction and attitude.',
     'all velocities, headings, pitches, rolls and principal headings; every instrument kind; frame sequences up to the stated length',
     TF, ROT, ROTM, 'Solver verdict over all attitudes and velocities (exact reals) for 1-2 samples per dataset; frame sequences '
     'of length 2 (quick) or all permutations (thorough).', ('inputs', 'histories'))
prop('R02', 'Rotations are rigid and keep the physical meaning of each component',
     'Rotating between the instrument, earth and principal frames preserves the length of each velocity vector, dot products between '
     'vectors and NaN positions sample by sample, and each sample uses only its own attitude. Vertical velocity is unchanged by the '
     'horizontal principal-axis rotation, and redundant error or second-vertical components keep their role.',
     'all velocities with any NaN pattern and all attitudes', TF, ROT, ROTM,
     'Solver verdict over all attitudes and velocities for datasets of 1-2 samples and 1-2 range cells.')
prop('R03', 'Heading, pitch and roll orient the data as documented',
     'An instrument with heading h, pitch p and roll r has its velocity turned into the earth frame by exactly the documented right-handed '
     'rotation for its make and mounting direction: a current along the instrument axis that points along bearing h becomes a flow toward bearing h. '
     'Upside-down mounting acts as the documented half turn.',
     'all headings, pitches and rolls, each instrument make, up- and down-facing', TF,
     ROT + ['dolfyn/rotate/awac.py'], [('h/p/r matrix', 'dolfyn/rotate/vector.py:_calc_omat, rotate/base.py:euler2orient, rotate/rdi.py:_calc_orientmat')],
     'Solver verdict over all angles against an independent trigonometric oracle; 1-2 samples.')
prop('R04', 'Euler angles, orientation matrices and tilt are consistent',
     'Building an orientation matrix from heading, pitch and roll gives a proper rotation, and extracting the angles from it returns the same '
     'heading, pitch and roll. Tilt computed from pitch and roll is the documented combination and is symmetric and non-negative. '
     'A Vector whose head points up has its roll turned by 180 degrees, and keeps its last good attitude where the end of the record has none.',
     'all headings, all pitches strictly between -90 and 90 degrees, all rolls', TF,
     ['dolfyn/rotate/base.py', 'dolfyn/rotate/vector.py'], [('euler2orient / orient2euler / calc_tilt', 'dolfyn/rotate/base.py')],
     'Solver verdict over all angles in the stated ranges.')
prop('R05', 'Setting the declination turns earth-referenced data exactly once',
     'Setting a magnetic declination rotates earth-frame velocities, the heading, the orientation and the principal heading by that angle about the '
     'vertical; setting it again replaces the previous value instead of accumulating, and the result does not depend on the frame the data were in when it was set. '
     'Vertical components and speeds never change.',
     'all declinations (sequences of two), attitudes and velocities in every frame', TF + ' Order and repetition of calls are not sampled.',
     ['dolfyn/rotate/api.py'], [('set_declination', 'dolfyn/rotate/api.py:set_declination')],
     'Solver verdict for sequences of up to two declinations, all frames, 1 sample.', ('inputs', 'histories'))
prop('R06', 'Frame bookkeeping always matches the data',
     'After any successful rotation the recorded coordinate system, the direction labels and their reference frame all name the frame the data are in, every '
     'listed vector variable was rotated and no other variable changed. A refused rotation raises and leaves the dataset as it was, and with inplace=False '
     'the caller\'s dataset is never modified.',
     'every pair of frames, every instrument kind, inplace or not, valid and refused requests', 'The tests check attributes for the paths they walk only.',
     ROT + ['dolfyn/velocity.py'], [('_set_coords', 'dolfyn/rotate/base.py'), ('rotate2', 'dolfyn/rotate/api.py')],
     'All frame pairs, symbolic data, exact comparison.', ('inputs', 'histories', 'configurations'))
prop('R07', 'RDI beam geometry recovers a uniform flow with zero error velocity',
     'For every beam angle and both beam faces, the transform from four beam velocities to instrument velocities recovers the velocity that produced those beam '
     'velocities, with zero error velocity for a uniform flow, and the error velocity is scaled to the documented norm.',
     'all beam angles from 10 to 45 degrees, convex and concave heads, all velocities', 'Only one recorded beam angle is exercised.',
     ['dolfyn/rotate/rdi.py'], [('_calc_beam_orientmat', 'dolfyn/rotate/rdi.py')], 'Solver verdict over all beam angles and velocities.')
prop('R08', 'The principal heading is the speed-weighted mean flow direction',
     'The principal heading is the compass direction of the speed-weighted mean of the horizontal flow directions; in tidal mode directions are doubled first, so that '
     'flood and ebb count as one axis and reversing any sample changes nothing. NaN samples are ignored, and rotating a steady flow into the principal frame puts it in the streamwise component.',
     'all horizontal records of 1-2 (thorough 4) samples, any directions and speeds', 'One stored value is compared, with the data file absent.', ['dolfyn/rotate/base.py', 'dolfyn/rotate/api.py'],
     [('calc_principal_heading', 'dolfyn/rotate/base.py')], 'Solver verdict for records of 1-2 samples (thorough: 4), resultant not near zero.')
prop('R09', 'A head-to-body rotation matrix is applied once and in the right frame',
     'Setting the head-to-instrument rotation of a cabled velocimeter turns instrument-frame velocities by exactly that matrix once, leaves beam velocities untouched, and keeps the data\'s '
     'frame. A second setting, a matrix that is not a rotation, or an instrument without a detachable head is refused without changing data.',
     'all velocities and attitudes, rotations about every axis by any angle, every frame', TF, ['dolfyn/rotate/api.py', 'dolfyn/rotate/vector.py'],
     [('set_inst2head_rotmat', 'dolfyn/rotate/api.py'), ('_rotate_inst2head', 'dolfyn/rotate/vector.py')], 'Solver verdict, 1-2 samples.', ('inputs', 'histories'))
prop('R10', 'Quaternions become the proper rotation they encode',
     'Every non-zero attitude quaternion (W, X, Y, Z) is turned into the transpose of the rotation it encodes: a proper right-handed rotation matrix, independent of the quaternion\'s scale '
     'and overall sign, aligned with its own timestamp. Using that matrix rotates velocities into the earth frame by the same rotation.',
     'all quaternions with components in [-1,1] and squared norm > 0.01', 'One recorded file is compared (absent here).', ['dolfyn/rotate/base.py', 'dolfyn/rotate/signature.py'],
     [('quaternion2orient', 'dolfyn/rotate/base.py')], 'Solver verdict; scipy\'s Rotation is replaced by its defining formula (trusted, cross-checked by replay).')

MISC = 'dolfyn/tools/misc.py'
BT = ('The binning tests compare whole-file results with stored netCDF files (absent here); they fix one n_bin and one record and '
      'cannot show that every sample of every record lands in its own bin.')
prop('T01', 'Gap filling changes only gaps and fills them along a straight line',
     'Filling missing values never changes a finite value; each interior gap no longer than the stated maximum is filled on the straight line between its two neighbours '
     '(in index or in time), longer gaps stay missing, and edges are filled only when extrapolation is asked for. Each series of a multi-dimensional array is filled from itself alone.',
     'all values, all NaN patterns, all gap limits', 'A handful of arrays is sampled by the unit tests.', [MISC],
     [('fillgaps', MISC + ':fillgaps'), ('interpgaps', MISC + ':interpgaps')], 'Solver verdict for series of up to 6 values with any NaN pattern.')
prop('T02', 'Run detection, axis slicing and median filtering treat every run and cell',
     'Run detection returns exactly the start and stop of every maximal run of true values of at least the minimum length. Slicing along an axis visits every 1-D series '
     'exactly once, and the NaN-aware median filter replaces each point by the median of the finite values in its window and never fails on gaps.',
     'all boolean arrays up to the bound, all shapes, all values and NaN patterns', 'One array per helper is tested.', [MISC],
     [('group', MISC + ':group'), ('slice1d_along_axis', MISC), ('medfiltnan', MISC)], 'Solver verdict for arrays up to the stated lengths.')
prop('T03', 'Detrending and direction conversion are exact and invertible',
     'Detrending subtracts the least-squares line of each series and nothing else: the result is orthogonal to constants and ramps, and detrending again changes nothing. '
     'Converting between compass and mathematical angles is the reflection 90 degrees minus the angle, lands in the documented range and undoes itself.',
     'all values and all angles', 'Two series and five angles are tested.', [MISC], [('detrend', MISC + ':detrend'), ('convert_degrees', MISC)],
     'Solver verdict for series of up to 6 values and all angles in [-360,720].')
prop('T04', 'The velocity shortcuts return the documented components',
     'The u, v and w shortcuts are the components of the velocity; U is u+iv, U_mag its length and U_dir the direction the water flows to in the convention of the current frame. '
     'TKE, stresses, turbulence intensity and coherent energy are the documented combinations of their vectors, with missing data staying missing.',
     'all velocities, turbulence vectors and NaN patterns', 'Accessors are only touched in passing.', ['dolfyn/velocity.py'], [('Velocity accessor', 'dolfyn/velocity.py:Velocity')],
     'Solver verdict for 2 samples and 2 cells.')
prop('B01', 'Binning uses every sample once, in order, without mixing bins',
     'Reshaping a record into bins puts each sample into exactly one bin, in order, dropping only the remainder at the end; padding repeats only neighbouring samples. '
     'A fractional n_bin skips the documented points without running off the record, and detrending or demeaning a bin uses only that bin.',
     'all values; all n_bin, n_pad, record lengths and dimensions in the bounds', BT, ['dolfyn/binned.py'], [('reshape', 'dolfyn/binned.py:TimeBinner.reshape')],
     'Solver verdict over values; lengths and paddings enumerated as symbolic integers within the stated bounds.')
prop('B02', 'Bin averages, variances and directions are those of each bin\'s finite samples',
     'Averaging a dataset gives, for every variable and bin, the mean of that bin\'s finite samples and the mean time, and variances and standard deviations likewise. '
     'Averages commute with rotations, angles are averaged as the bins\' mean, and mismatching settings are refused without touching the input.',
     'all values and missing patterns', BT, ['dolfyn/binned.py', 'dolfyn/velocity.py'], [('do_avg / do_var', 'dolfyn/velocity.py:VelBinner')],
     'Solver verdict for 2 bins of 2-3 samples and a remainder, any missing pattern in one component.')
prop('B03', 'Turbulence intensity, TKE and stresses are the covariances of each bin',
     'TKE components and Reynolds stresses are the variances and covariances of the de-meaned or detrended velocities of each bin, with the stated noise variance (one, or one per bin or cell) subtracted; '
     'stresses obey the Cauchy-Schwarz inequality. Turbulence intensity is the noise-corrected standard deviation over the mean speed, missing below the threshold, and the one-call suite gives the same numbers without changing its input.',
     'all velocities, noise levels, thresholds and missing patterns', BT, ['dolfyn/adv/turbulence.py', 'dolfyn/velocity.py'],
     [('calc_tke / calc_ti', 'dolfyn/velocity.py:VelBinner'), ('calc_stress', 'dolfyn/adv/turbulence.py:ADVBinner'), ('calc_turbulence', 'dolfyn/adv/turbulence.py')],
     'Solver verdict for bins of 3-6 samples.')
prop('B04', 'Covariance functions and integral scales follow their definitions',
     'The auto- and cross-covariance of each bin at each lag are the documented lagged sums of de-meaned samples, also when n_bin is overridden, and the normalised covariance of proportional signals is one. '
     'The integral length scale is the mean speed times the first lag at which the autocorrelation has fallen below 1/e.',
     'all values; bins and lags in the bounds', BT, ['dolfyn/velocity.py', 'dolfyn/adv/turbulence.py'], [('calc_acov / calc_xcov', 'dolfyn/velocity.py'), ('calc_L_int', 'dolfyn/adv/turbulence.py')],
     'Solver verdict for 1-3 bins of up to 8 values.')
SP = 'Spectra are compared with stored files for one record (absent here); averaging, scaling and edge lengths are never varied.'
prop('S01', 'Power spectra are the average periodogram of the record\'s segments',
     'The power spectral density of a record is the average of the windowed, detrended periodograms of exactly the documented overlapping segments: non-negative, quadratic in the signal, blind to a linear trend, '
     'and integrating to the variance. Frequencies are the positive multiples of fs/nfft, and unsuitable windows or data are refused.',
     'all records of the stated lengths; all nfft, step and window choices in the bounds', SP, ['dolfyn/tools/psd.py'], [('psd / cpsd / stepsize', 'dolfyn/tools/psd.py')],
     'Solver verdict over all records of 3-11 values (20 thorough) against an independent DFT.')
prop('S02', 'Cross spectra, coherence and phase follow their definitions',
     'The cross spectrum of two records is the average over their paired segments of fft(a) conj(fft(b)), so swapping the records conjugates it, also when their lengths differ. '
     'Coherence is |Sab|^2 over Saa Sbb from the same segments (one for proportional signals, with stated noise removed), and the phase is the average unit vector of b relative to a over all segments.',
     'all pairs of records in the bounds, lengths equal and unequal', SP, ['dolfyn/tools/psd.py'],
     [('cpsd / cpsd_quasisync', 'dolfyn/tools/psd.py'), ('coherence / phase_angle', 'dolfyn/tools/psd.py')],
     'Solver verdict over all records for cross spectra, over one-parameter families for coherence and phase.')
prop('S03', 'Binned spectra describe their own bin, frequency and time',
     'Spectra, cross spectra, coherence and phase of a dataset are those of each bin with its documented padding, on the frequencies and mean times that belong to them, whatever n_bin, n_fft, sampling rate or units are chosen per call, an FFT longer than the bin being one of the bin. '
     'A density per rad/s is 1/(2 pi) of that per Hz, noise is removed as white noise up to the Nyquist frequency without negative results, and the Doppler-noise level follows from the top of the spectrum.',
     'all velocity records; n_bin, n_fft and length combinations in the bounds', SP, ['dolfyn/binned.py', 'dolfyn/velocity.py', 'dolfyn/adv/turbulence.py'],
     [('calc_psd / calc_coh / calc_phase_angle', 'dolfyn/velocity.py'), ('calc_csd / calc_doppler_noise', 'dolfyn/adv/turbulence.py'), ('base routines', 'dolfyn/binned.py')],
     'Solver verdict over all records of 2-3 bins of 4-8 samples.')
prop('S04', 'Dissipation rates recover the turbulence they are defined by',
     'Every dissipation estimate is the documented function of its input: a Kolmogorov spectrum made with a dissipation rate gives that rate back in Hz and in rad/s and with white noise added, the structure-function estimate follows the 2/3 law '
     'over the requested lags, and the wave-corrected estimate averages its horizontal and vertical parts. The cascade slope is the log-log regression line of the requested band, and inputs are left unchanged.',
     'all spectra, velocities, speeds and noise levels', 'One recorded file is compared (absent here).', ['dolfyn/adv/turbulence.py'],
     [('calc_epsilon_LT83 / SF / TE01', 'dolfyn/adv/turbulence.py'), ('check_turbulence_cascade_slope', 'dolfyn/adv/turbulence.py')],
     'Solver verdict over all spectra of 7 frequencies and bins of 6 samples; the wave integral of TE01 is evaluated for fixed mean flows.')
MP = 'The motion tests compare one recorded file with stored results (both absent here); filters, attitudes, bursts and probe geometry are never varied.'
prop('M01', 'Motion correction adds the velocity of the moving probe and nothing else',
     'The corrected velocity is the measured velocity plus turn rate x lever arm plus the time integral of the high-passed earth-frame acceleration, with exactly the requested filters, all in the requested frame. '
     'The result does not depend on the frame the data were in, bursts are treated separately, and probe-tip correction uses each beam\'s own tip.',
     'all velocities, accelerations, turn rates, lever arms and attitudes; filter frequencies listed in the check', MP, ['dolfyn/adv/motion.py'],
     [('correct_motion', 'dolfyn/adv/motion.py'), ('CalcMotion', 'dolfyn/adv/motion.py:CalcMotion')],
     'Solver verdict for records of 10 samples (2 with symbolic attitude) and two bursts of 10; Butterworth coefficients are taken from scipy, the filtering is encoded as the exact linear map.')
prop('M02', 'Motion correction refuses unusable data and never changes its input',
     'Records with a missing IMU sample, without an IMU, without head geometry, already corrected, or whose bursts miss the configured interval are refused. '
     'The input dataset and its attributes stay as they were, the raw velocity is kept as an independent copy, and the new vectors take part in later rotations.',
     'all patterns of missing sensor values; all data; burst gaps of 55-65 s', MP, ['dolfyn/adv/motion.py'], [('correct_motion', 'dolfyn/adv/motion.py')],
     'Solver verdict for 10 samples and three bursts.', over=['inputs', 'histories'])
CP = 'The cleaning tests compare recorded files with stored results (absent here); masks, gaps, thresholds and depths are never varied.'
prop('C01', 'Cleaning a velocimeter record replaces flagged samples and no others',
     'Range and spike detectors flag exactly the samples beyond their limits, missing values included as documented. '
     'Filling replaces exactly the flagged samples, from their own component and neighbourhood, restoring smooth curves; gaps longer than maxgap and record ends stay missing, and ensemble filling uses the mean of the good samples of the window.',
     'all velocities, limits, masks and gap positions in the bounds', CP, ['dolfyn/adv/clean.py'],
     [('range_limit / spike_thresh', 'dolfyn/adv/clean.py'), ('clean_fill', 'dolfyn/adv/clean.py'), ('fill_nan_ensemble_mean', 'dolfyn/adv/clean.py')],
     'Solver verdict for records of 3-14 samples; the despiking statistics of GN2002 are not covered.')
prop('C02', 'Cells beyond the water surface are removed and all others kept',
     'Depth follows from pressure, temperature and salinity as the weight of the water column, or from the echo peak, and is missing where the echo does not rise by the threshold. '
     'Masking removes exactly the cells beyond the side-lobe range (echo sounder: beyond the surface) for the beam angle in degrees, counted from the same origin as the range offset.',
     'all pressures, temperatures, salinities, depths and data; echo profiles of the stated shape', CP, ['dolfyn/adp/clean.py'],
     [('set_range_offset', 'dolfyn/adp/clean.py'), ('find_surface / find_surface_from_P', 'dolfyn/adp/clean.py'), ('nan_beyond_surface', 'dolfyn/adp/clean.py')],
     'Solver verdict for 2-7 profiles of 3-6 cells (one of 300).')
prop('C03', 'Quality filters of profiler data act on the right beam, cell and time',
     'The correlation filter removes exactly the beam velocities at or below the threshold, whatever frame the data are in, and returns the data in that frame. '
     'Threshold masks, gap filling along time or depth and smoothing of the attitude change only the values they are asked to, with the documented result, and leave their input alone.',
     'all velocities, correlations, thresholds, gap positions and attitudes in the bounds', CP, ['dolfyn/adp/clean.py'],
     [('correlation_filter', 'dolfyn/adp/clean.py'), ('fillgaps_time / fillgaps_depth', 'dolfyn/adp/clean.py'), ('medfilt_orient', 'dolfyn/adp/clean.py')],
     'Solver verdict for 1-14 samples.')
AP = 'The turbulence tests compare one recorded file with stored results (absent here); profiles, orientations, tilts and settings are never varied.'
prop('A01', 'Shear is the exact difference quotient at the cells it is reported for',
     'First, centred and extended differences of profiler velocities are the exact quotients over the cells they span, reported at those cells and times, and a linear profile has its slope everywhere. '
     'Facing down reverses the sign of du/dz, and the squared shear is the sum of the two horizontal parts.',
     'all velocity profiles; cell counts and sizes in the bounds', AP, ['dolfyn/adp/turbulence.py'], [('calc_dudz / calc_shear2', 'dolfyn/adp/turbulence.py:ADPBinner')],
     'Solver verdict for 3-5 cells (12 thorough), three cell sizes.')
prop('A02', 'Profiler stresses and TKE are those of the flow seen by the beams',
     'Stresses are differences of the noise-corrected variances of opposite beams over 4 sin cos of the beam angle, in the documented order for make and facing direction. '
     'With a fifth beam all variances and stresses of the flow are recovered to first order in the tilt, and a linear stress profile gives back its friction velocity.',
     'all beam velocities, noise levels and friction velocities; listed tilts, beam angles and makes', AP, ['dolfyn/adp/turbulence.py'],
     [('calc_stress_4beam / 5beam', 'dolfyn/adp/turbulence.py:ADPBinner'), ('calc_ustar_fit', 'dolfyn/adp/turbulence.py:ADPBinner')],
     'Solver verdict for 1-2 cells and bins of 3 samples. v\'^2 under pitch is not claimed (published term disputed).')
prop('A03', 'Profiler noise and dissipation estimates recover what made the data',
     'The Doppler-noise level follows from the top of the spectrum and the LT83 rate from the -5/3 range, in Hz and rad/s, with noise removed. '
     'The structure function is the mean squared difference at each separation, and velocities that follow the 2/3 law plus noise give back their dissipation rate and noise, using only the requested separations.',
     'all spectra, velocities, dissipation rates and noise levels', AP, ['dolfyn/adp/turbulence.py'],
     [('calc_doppler_noise', 'dolfyn/adp/turbulence.py:ADPBinner'), ('calc_dissipation_LT83 / SF', 'dolfyn/adp/turbulence.py:ADPBinner')],
     'Solver verdict for spectra of 7-8 frequencies and 5-8 cells (12 thorough).')
IP = 'The reading tests compare a dozen recorded files with stored results (absent here); byte values, block orders, damage and settings outside those recordings are never seen.'
RDI = ['dolfyn/io/rdi.py', 'dolfyn/io/rdi_lib.py', 'dolfyn/io/rdi_defs.py']
prop('I01', 'Every cell and beam of a TRDI ensemble decodes to its own value',
     'Velocities in mm/s become m/s, correlation, amplitude, percent good and status their counts, each at its own beam, cell and ensemble. '
     'The missing-velocity code becomes NaN and nothing else does; the range axis and the surface-layer profile with its own cells and axis follow the file.',
     'all data bytes; ensembles, cells and firmware versions in the bounds', IP, RDI,
     [('read_vel / read_corr / read_amp', 'dolfyn/io/rdi.py:_RDIReader'), ('clean_data', 'dolfyn/io/rdi_defs.py:_ensemble')],
     'Solver verdict for 1-3 ensembles of 1-3 cells (6 x 4 and 20 cells thorough).')
prop('I02', 'TRDI configuration and environment fields are read as documented',
     'Each field of the fixed and variable leaders becomes the documented physical value for every firmware generation, and the data after them are found. '
     'Configuration bits give frequency, beam angle, pattern, orientation and frame; the clock with its century gives the time.',
     'all field bytes; listed firmware versions; all configuration codes', IP, RDI,
     [('read_cfgseg / read_var', 'dolfyn/io/rdi.py:_RDIReader')], 'Solver verdict per firmware version; clocks are enumerated.')
prop('I03', 'TRDI files are read to the end, whatever lies between the ensembles',
     'Every complete ensemble followed by another is read once and in order: with data types in any order, unknown or skipped types anywhere, spare or stray bytes between ensembles, false sync bytes, a changed cell count, or a file cut at any byte. '
     'What an ensemble does not have, a data type or the cells beyond its own, is missing for that ensemble and not repeated from another.',
     'all data bytes, stray bytes, cut positions and block orders in the bounds', IP, RDI,
     [('search_buffer / checkheader', 'dolfyn/io/rdi.py:_RDIReader'), ('read_buffer / skip_nocode', 'dolfyn/io/rdi.py:_RDIReader')],
     'Solver verdict for files of 4 small ensembles (130 for the length estimate). The last ensemble of a file is not read by design.', over=['inputs', 'faults'])
prop('I04', 'Bottom-track, altimeter and navigation blocks of TRDI files decode exactly',
     'Bottom-track ranges, velocities and quality, altimeter, VMDAS and WinRiver navigation decode to the documented physical values with their signs and hemispheres. '
     'Blocks that are empty, unknown or of another firmware version leave the data around them in place.',
     'all block bytes, positions and hemispheres', IP, RDI,
     [('read_bottom / read_vmdas / read_winriver2', 'dolfyn/io/rdi.py:_RDIReader')], 'Solver verdict for 1-2 ensembles per firmware version. The sign convention of VMDAS pitch and roll beyond 180 degrees is left open.')
prop('I05', 'A TRDI file becomes a consistent dataset',
     'The dataset has the frame of the file, each variable on its own dimensions and times with units, and the matrices that later rotations need. '
     'Repeated, missing, empty or garbled positions cost only themselves: no ensemble, no other position and no other data are lost or shifted. '
     'A declination from file or user data is applied once to data and heading.',
     'all data bytes; frames, repeated-time patterns and declination sources listed', IP, RDI + ['dolfyn/io/base.py', 'dolfyn/io/api.py'],
     [('read_rdi', 'dolfyn/io/rdi.py:read_rdi'), ('_create_dataset', 'dolfyn/io/base.py')], 'Solver verdict for 1-4 ensembles.')
NK = ['dolfyn/io/nortek.py', 'dolfyn/io/nortek_defs.py', 'dolfyn/io/base.py']
prop('I06', 'Every sample of a Nortek Vector file is decoded, and no others',
     'Velocity, amplitude, correlation and pressure of each sample have their own values and units, at sample times fixed by the system records, in bursts as well. '
     'Environment and orientation agree with each system record and are interpolated between them (headings the short way round), IMU data are in instrument axes and earth order, and IMU blocks of unknown kinds, ensemble limits and a cut file neither add, drop nor shift samples.',
     'all data bytes; samples, rates, bursts and IMU kinds in the bounds', IP, NK,
     [('read_vec_data / sci_vec_sysdata', 'dolfyn/io/nortek.py:_NortekReader'), ('read_microstrain / sci_microstrain', 'dolfyn/io/nortek.py:_NortekReader'), ('read_nortek', 'dolfyn/io/nortek.py')],
     'Solver verdict for files of 3-13 samples at 1-4 Hz.', over=['inputs', 'faults'])
prop('I07', 'Every profile of a Nortek AWAC file is decoded, and no others',
     'Velocity and amplitude of each beam and cell, signed attitude and temperature, pressure and the clock become physical values at their own profile. '
     'Cell size, blanking and cell positions follow the configuration counts and the frequency; ensemble limits and a cut file leave whole profiles untouched.',
     'all data bytes and configuration counts; profiles and cells in the bounds', IP, NK,
     [('read_awac_profile / sci_awac_profile', 'dolfyn/io/nortek.py:_NortekReader')],
     'Solver verdict for 1-4 profiles of 2-4 cells (even counts). Known finding: wave records make the reader fail.', over=['inputs', 'faults'])
prop('I08', 'Classic Nortek configuration, framing, checksums and clocks are read right',
     'Each configuration field and flag reaches its documented attribute; BCD clocks give the instant; Vectrino samples decode with their regular time axis. '
     'With checksums on, a block is accepted exactly when its sum is right; junk and records of unknown kinds between the records change no sample.',
     'all field bytes, all flag combinations, all clock readings, all wrong sums', IP, NK,
     [('read_user_cfg / read_head_cfg / read_hw_cfg', 'dolfyn/io/nortek.py:_NortekReader'), ('findnext / checksum / rd_time', 'dolfyn/io/nortek.py:_NortekReader'), ('read_vno_data', 'dolfyn/io/nortek.py:_NortekReader')],
     'Solver verdict; files of 1-4 samples.', over=['inputs', 'faults'])
SG = ['dolfyn/io/nortek2.py', 'dolfyn/io/nortek2_lib.py', 'dolfyn/io/nortek2_defs.py', 'dolfyn/rotate/base.py']
prop('I09', 'Every field of a Nortek Signature record decodes to its own value',
     'Velocities with their scaling, amplitudes, correlations, pressure, signed temperature and attitude, AHRS, altimeter, bottom track, echogram, fifth beam and averages become physical values at their own beam, cell and ensemble. '
     'Record clocks give the times; coordinate systems, status bits and header text give the documented attributes and range axes.',
     'all data bytes; record kinds, flag sets, beams and cells in the bounds', IP, SG,
     [('sci_func / readfile', 'dolfyn/io/nortek2.py:_Ad2cpReader'), ('_LinFunc / _create_struct', 'dolfyn/io/nortek2_defs.py'), ('_reorg / _reduce', 'dolfyn/io/nortek2.py')],
     'Solver verdict for 1-3 ensembles of 1-4 cells. Known findings: percent good is dropped, the bottom-track magnetometer is not scaled.')
prop('I10', 'Every Signature record lands in its own ensemble',
     'Each data record is read once, in its own ensemble and at its own time: for any ensemble window, counters that start at 0, restart or skip, records lost in the middle, raw altimeter pings, records of other kinds and sizes between them, and a file cut at any byte. '
     'A lost record leaves its place empty and the others where they are; a cropped file holds the ensembles asked for.',
     'all data bytes, cut positions and unrelated records; patterns of records in the bounds', IP, SG,
     [('_create_index / _check_index', 'dolfyn/io/nortek2_lib.py'), ('readfile / init_data', 'dolfyn/io/nortek2.py:_Ad2cpReader'), ('crop_ensembles', 'dolfyn/io/nortek2_lib.py')],
     'Solver verdict for files of 1-9 ensembles. Known finding: shared sensor values are halved where only the fifth-beam record is lost.', over=['inputs', 'faults', 'histories'])
prop('I11', 'A Signature file becomes consistent datasets',
     'Burst and average profiles of a dual-profile file come back as two datasets, each with its own records, times and orientation. '
     'Velocities read in beam, instrument or earth axes rotate to the same earth velocities for either mounting, and user data beside the file are applied once.',
     'all data values; profile plans, frames and mountings in the bounds', IP, SG + ['dolfyn/rotate/signature.py', 'dolfyn/io/base.py'],
     [('read_signature / split_dp_datasets', 'dolfyn/io/nortek2.py'), ('_reduce', 'dolfyn/io/nortek2.py')],
     'Solver verdict for 2-8 records. Known finding: the averaging orientation matrix of a dual profile is transposed.')
prop('I12', 'The right reader, the user\'s data, and incomplete pings at the end',
     'dolfyn.read picks the reader by the first bytes alone, whatever the rest of the file or its name, and refuses anything else. '
     'User data come from the file named, or else from beside the data file, with matrices, vectors and values unchanged. '
     'Only pings at the end of a Nortek file that lack a clock or motion data are dropped, and nothing of the others changes.',
     'every 40 first bytes, every user value, every pattern of missing pings',
     'The reading tests have one file per instrument and no missing records.', ['dolfyn/io/api.py', 'dolfyn/io/base.py', 'dolfyn/io/nortek.py'],
     [('read', 'dolfyn/io/api.py'), ('_get_filetype / _find_userdata / _handle_nan', 'dolfyn/io/base.py')],
     'Solver verdict for all first bytes and up to 5 pings (6 thorough).')
NC = 'Round trips in the tests compare one recorded file each.'
prop('N01', 'A dataset saved as netCDF loads back as it was',
     'Every value, missing value, complex number, dimension, coordinate, time, name and attribute of a dataset written by save is returned by load, compressed or not, and again when the copy is saved again. '
     'Saving leaves the dataset in memory unchanged, and encodings asked for are used.',
     'all data values; datasets in the bounds', NC, ['dolfyn/io/api.py'],
     [('save / load', 'dolfyn/io/api.py'), ('_decode_cf', 'dolfyn/io/api.py')],
     'Solver verdict for any values in 21 kinds of dataset; the netCDF library itself is trusted with the bytes.')
prop('N02', 'A dataset saved as a MAT file loads back as it was',
     'Every value, missing value, dimension, coordinate, time (to a tenth of a millisecond), label and attribute of a Vector, Signature or TRDI dataset written by save_mat is returned by load_mat, with MATLAB or epoch times. '
     'Saving leaves the dataset in memory unchanged.',
     'all data values; datasets in the bounds', NC, ['dolfyn/io/api.py', 'dolfyn/io/base.py'],
     [('save_mat / load_mat', 'dolfyn/io/api.py'), ('_create_dataset', 'dolfyn/io/base.py')],
     'Solver verdict for any values in 21 kinds of dataset; scipy.io is trusted with the bytes. Known finding: a dimension of length one is lost.')
prop('V01', 'The shortcut dat.velds does what the functions do',
     'Setting the declination or the head matrix, rotating and saving through dat.velds gives what the functions of the package give, in place or on a copy as asked. '
     'Looking up and showing a dataset returns its own variables, times and frame and changes nothing.',
     'any velocity and attitude', 'The test only prints it.', ['dolfyn/velocity.py'],
     [('Velocity', 'dolfyn/velocity.py')], 'Solver verdict for 1-8 pings; save through the netCDF library.')
na('D01', 'Phase-space despiking flags exactly the points outside the ellipsoid',
   'GN2002 marks a sample as a spike exactly when its velocity, first and second differences lie outside the ellipsoid of Goring and Nikora, whatever the offset, sign or scale of the series.',
   'every velocity series', 'One recorded file is despiked in the tests.', ['dolfyn/adv/clean.py'],
   [('GN2002 / _phaseSpaceThresh', 'dolfyn/adv/clean.py')],
   'The ellipsoid has data-dependent axes: sines of arctangents of sums, a linear solve, standard deviations and a quotient for every sample. '
   'Encoded over seven samples with one free value, z3 did not decide even the sign symmetry of the flags in four minutes, so no verdict over all values can be had.')
prop('H01', 'Time conversions keep the instant, and gaps in a time axis are filled evenly',
     'Epoch seconds, datetime64, datetime objects and MATLAB datenum convert into each other to the same instant within the precision of each format, before 1970 as well, with hour offsets added as asked. '
     'Missing times lie evenly between known ones, known times never change, and the ends go on at the sample rate.',
     'all instants of the listed days, all patterns of missing times',
     'The time tests look at three recorded instants.', ['dolfyn/time.py'],
     [('epoch2dt64 / dt642epoch / epoch2date', 'dolfyn/time.py'), ('date2matlab / matlab2date', 'dolfyn/time.py'), ('_fill_time_gaps', 'dolfyn/time.py')],
     'Solver verdict for any time of 5 days (leap days, before 1970, year ends) and up to 5 samples (7 thorough).')
