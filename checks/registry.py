"""What each check builds and runs."""
CHECKS = {}


TECH = 'bounded-exhaustive explicit-state exploration of the real code against a reference model'


def check(id, **kw):
    kw.setdefault('technique', TECH)
    kw.setdefault('note', 'Complete within the stated bounds on the current tree (every case is executed on the compiled code under AddressSanitizer); trusts the reference model in the check, the compiler and the sanitizer. Says nothing beyond the bounds.')
    CHECKS[id] = kw


check('C02', level='model_checking', lib=[], asan=True,
      rule='one case per element type and dimension list; inside it every index tuple; non-trivial: more than one element',
      bounds=dict(quick='ranks 1-6; extents 0-8 (rank 1), 0-5 (2), 0-3 (3), 0-2 (4,5), 1-2 (6) and distinct-extent shapes; '
                        'every index from -d-1 to d in every position, far-out indices one position at a time; all arities 1-6; '
                        'every constructor (vector, list, generator, dimensions and elements, other element type) for the same shapes; '
                        'corners and middles of 27 shapes of 2^31 to 2^33 elements (memory reserved, not used); 14 forms of creation with negative dimensions and with products beyond 2^63',
                  thorough='as quick with extents 0-12, 0-7, 0-4, 0-3, 0-2, 0-2'))

check('C01', level='model_checking', lib=[], asan=True, flags=['-DMC_COUNT_NEW'],
      rule='one case per initial state and pair of first two operations, exploring every continuation; non-trivial: both operations enabled',
      bounds=dict(quick='3 handles, all operation histories to depth 4 (real, ~110 operations; complex, reduced operations), 2 handles to depth 5; '
                        'index lists: all histories of length 4 over 3 lists; all histories of 2 operations on handles of 4100-4270 elements; 2 to 131073 owners of one value around powers of two; states merged on (values, dimensions, observed sharing and reference counts)',
                  thorough='3 handles to depth 5 (real) and 4 (complex), 2 handles to depth 7 (real) and 6 (complex), index lists to length 5'))

check('C03', level='model_checking', lib=[], asan=True,
      rule='one case per element type, dimension list and first selector (the others enumerated inside); non-trivial: at least one selected element',
      bounds=dict(quick='rank 1: extents 0-6 x every single index, every start/stop/step (|step|<=3) with positions from -d-1 to d, all index lists of length <=2 (3 in range); '
                        'rank 2: extents 0-3 (and 5x7,9x1,17x33) x (every selector x 21 representative ones, both orders); rank 3: extents 0-3 x 21x7x7 selectors; '
                        'ranks 4-6: extents 0/1-2 and mixed shapes x 4-7 selectors per dimension; all pairs of equal-shaped selections for self-assignment (rank 1 up to 4, rank 2 up to 3x3); shapes to 4099 elements per index; 27 shapes of 2^31 to 2^33 elements; positions and steps at the ends of the integers; not-a-number, infinities and signed zeros among the elements',
                  thorough='as quick with rank 1 to 8, |step|<=5, rank 2 to 4x4, 21 selectors in every dimension of rank 3'))

check('C04', level='model_checking', lib=[], asan=True,
      rule='one case per element type, dimension list and family of operation; non-trivial: more than one element',
      bounds=dict(quick='extents 0-12 (rank 1), 0-6 (2), 0-4 (3), 0-3 (4), 0-2 (5,6) and rotations of 2x3x5x4x1x2 plus larger shapes (to 1048583 per index and 1031x1033, with selected new sizes); not-a-number, infinities and signed zeros among the elements; every factorisation of the size into 1-6 extents as reshape target, every pair of dimension numbers from -rank-1 to rank, every new size up to d+3',
                  thorough='extents 0-20, 0-8, 0-5, 0-4, 0-3, 0-2'))

check('C05', level='model_checking', lib=[], asan=True,
      rule='one case per pair of dimension lists, with all index pairs, element-type mixes, functions and aliasing patterns inside; non-trivial: a non-empty result',
      bounds=dict(quick='all pairs of shapes: rank 1 extents 0-4, rank 2 extents 0-3, rank 3 extents 0-2, rank 4 extents 1-2; every pair of unit operands when sizes multiply to <=144, two generic integer operands otherwise; '
                        'all index pairs from -rank-1 to rank for ranks summing to <=5; mixed-extent and larger shapes (to 130); contracted and free indices to 65539, and contracted indices of 2^31+5 (memory reserved, not used)',
                  thorough='as quick with rank 3 extents 0-3'))

check('C06', level='model_checking', lib=[], asan=True,
      rule='one case per element type and shape (or pair of shapes) with every offset, index pair and unit operand inside; non-trivial: a non-empty result',
      bounds=dict(quick='shapes: extents 0-5 (ranks 1,2), 0-3 (3), 0-2 (4) and larger ones to rank 6 and 65539 per index (selected offsets); every index pair from -rank-1 to rank; every offset from -d-1 to d+1; '
                        'diag: vectors 0-6 x offsets -5..5 x matrices 0-9 x 0-9; kron: all pairs of vectors 0-4 and matrices 0-3x0-3 with all unit operands, and of length 1031 and 1033; special values (signed zeros, infinities, not-a-number) in products, weights, traces and diagonals',
                  thorough='extents 0-6 (rank 2), 0-4 (3), 0-3 (4), vectors to 8'))

check('C07', level='model_checking', lib=[], asan=True,
      rule='one case per dimension list (all operators, type mixes, in-place and aliasing forms inside) or operand word; non-trivial: non-empty operands',
      bounds=dict(quick='every pair from alphabets of 17 reals / 27 complex numbers (special values included for same-type operands); all pairs of tensors of <=3 elements over 4 values; '
                        'signs of zeros compared; sizes 0-40 and around powers of two to 1048583; shapes to rank 6; all pairs of 93 different dimension lists for rejection',
                  thorough='as quick with tensors of <=4 elements'))

check('C08', level='model_checking', lib=[], asan=True,
      rule='one case per dimension list, operand word or special value with all operators and partner operands inside; non-trivial: at least one element',
      bounds=dict(quick='all pairs of 16 real / 24 complex / 15 integer special values; all pairs of words of length <=3 over 3 values; boolean words to 12, pairs to 6; shapes with extents 0-12 (rank 1), 0-5 (2), 0-3 (3), 0-2 (4,5) and larger to 262147 elements, with one differing or extreme element at every position (selected positions of the longest); all vectors of length <=5 over 5 values',
                  thorough='words to 4, boolean words to 16 and pairs to 8, extents 0-8, 0-4, 0-3, vectors to 6'))

check('C09', level='model_checking', lib=[], asan=True,
      rule='one case per start value, dimension list, or prefix of the words enumerated inside; non-trivial: a non-empty result (two elements for sorting)',
      bounds=dict(quick='ranges: starts -7..7, ends -9..24, steps 1-9 and at +-2^31,2^32,2^53,2^62 and the ends of the integers; linspace: all pairs of 14 reals with -3..130 steps, complex to 39, tensors of rank 1-4; concatenation of all pairs of words of length <=4 over 3 values; list expressions of 1-8 elements with all dimension pairs; '
                        'sorting: all words of length <=6 over 6 values, <=12 over 2, all permutations of 8, 12 patterns of 9-80 and larger sizes to 262147; ranges of 1048577 and subdivisions of 131077 elements',
                  thorough='linspace to 300 steps; sorting words to 7 and 14, permutations of 9'))

check('C10', level='model_checking', lib=[], asan=True,
      rule='one case per block of 64 patterns, first triplet or first operation with every continuation inside; non-trivial: a stored element or an enabled operation',
      bounds=dict(quick='every pattern of every shape up to 12 elements (40 each to 5x5, six densities to 100x100); every list of <=3 triplets over 6 cells x 3 values with 3-8 choices of dimensions; every order of the triplets of patterns to 3x3 with <=6 elements; identity/zero/random to 9x9; matrices of 1-4 rows and 2^31 to 2^62 columns; negative sizes and positions at the end of the integers; special values among the triplets; matrices sharing their lists; no zeros stored by construction from dense, sums, differences and element-wise products; all histories of 4 operations (19 operations, 6 starts)',
                  thorough='patterns to 16 elements, lists of 4 triplets, orders of 7, histories of 5 operations'))

check('C11', level='model_checking', lib=[], asan=True,
      rule='one case per pattern (with every partner inside), shape, number or pair of shapes; non-trivial: both operands hold elements',
      bounds=dict(quick='all pairs of patterns of 1x1..3x2 (four type mixes) and 3x3 (real), all pairs over {0,1,-1} of 4 elements, all stored-zero masks of 2x2, rejection for all pairs of shapes to 4x4 with 5x5; unary operations on all patterns to 12 elements; Kronecker of all shape pairs to 3x3; products of all patterns to 3x3 with tensors of rank 1-4, extents 0-3; larger to 100x100; matrices of 1-3 rows and 2^31 to 2^33 columns; Kronecker products whose sizes pass 2^63; infinities and not-a-number in sums, differences and products',
                  thorough='all 3x3 pairs in every type mix, unary patterns to 4x4, all Kronecker patterns of <=12 cells'))

check('C12', level='model_checking', lib=[], asan=True,
      rule='one case per value, name, prefix of records or of sessions, with every continuation inside; non-trivial: at least one record written',
      bounds=dict(quick='single values: 20 integers, 16 reals, 256 complex numbers (all special), tensors of ranks 0-4 with extents 0-5/3/2, larger to 1048593 elements, lists to 300; names of 0-80 characters and all bytes, all pairs refused; all words of <=3 of 13 records; every wrong kind and name at both positions of all pairs; all histories of 5 sessions (3 modes x 3 words) with reading in 3 modes; two files with every interleaving of 5 records',
                  thorough='words of 4 records, 6 sessions, 4 words per session'))

check('C14', level='model_checking', lib=[], asan=True,
      rule='one case per file (pair of records) and damage class with every damage inside; non-trivial: a damaged file was read',
      bounds=dict(quick='files of one and two of 10 records cut to every length, read with 2-5 contents of fresh memory (an allocator may return the remains of an intact file); every value of every byte of headers and tags, 11 values of names, low and high bytes of lengths and extents; larger files cut around every kilobyte; missing, empty, shifted, foreign files and directories',
                  thorough='files of three records, all memory contents, all pairs for changed bytes'))

check('C13', level='model_checking', lib=[], asan=False,
      rule='one case per scenario and eighth of its system calls, with every crash, failure and torn write at those calls inside; non-trivial: all',
      bounds=dict(quick='6 ways to end x old file present/absent x stale temporary x 4 record lists (0-4 records, to 22 kB) x job directory present/absent; the traced writer is killed before every file-system call, every call fails with 4 errors once and for ever, every write is cut at 4 lengths (and continues, dies, or finds the disk full); the file is inspected after every call and the next writer is run after every interruption',
                  thorough='11 errors'))

check('C15', level='model_checking', lib=[], asan=False,
      rule='one case per set of processes and sixteenth of its scheduling points; non-trivial: all',
      bounds=dict(quick='real processes under a controlled scheduler that chooses before every file-system call: 2 processes of 1 session with <=3-4 preemptions, of 2-3 sessions with <=2, 3 processes with <=2, 4 with 1; writers, readers, sessions closed, destroyed or never closed; data file and stale lock file present or absent; one process killed before every call combined with <=1-2 preemptions',
                  thorough='one preemption more'))

check('C16', level='model_checking', lib=[], asan=True,
      rule='one case per list of variables, spelling, placement or refused option with every partition inside; non-trivial: more than one job or an error',
      bounds=dict(quick='every list of 1 variable with 1-30 values, 2 with 1-6, 3 with 1-3, 4 with 1-2 (and larger to 1001 jobs) with every block count to N+3 and every block, every single job and every interval from -2 to N+2; 3 forms x 7 spellings x 8 separators on the command line and in files with 4 line endings; every placement of up to 4 variables among command line and files; every order of the options; 120 refusals; option values at the ends of the integers and more than 2^63 combinations',
                  thorough='1-60, 1-8, 1-4, 1-3 values'))

check('C17', level='model_checking', lib=['linalg'], asan=False,
      rule='one case per block of up to 700 matrices (sharing their last elements), structured matrix, scale or tolerance; non-trivial: all',
      bounds=dict(quick='direct: all real matrices 1x1 over 10 values, 2x2 over 6, 3x3 over {0,1,-1}, 4x4 over {0,1}, complex 1x1 and 2x2 over 7, 3x3 over {0,1,i}, with up to 8 right-hand sides (all unit vectors, ranks 1-4, no columns); least squares: all shapes to 3x3, 4x2, 2x4 and 4x4 over 2-6 values, scaled by 1e-30 to 1e30; all tolerances between singular values; gradients: M*M+1 for all M to 3x3 in 5 forms with 4 starts; 11 structured families to size 40, and 66 and 131',
                  thorough='more alphabets, 5-letter 3x3, structured to size 70'))

check('C18', level='model_checking', lib=['linalg'], asan=False,
      rule='one case per block of up to 700 matrices, sixteenth of the patterns of a shape, block structure or structured matrix; non-trivial: all',
      bounds=dict(quick='all matrices to 3x3 over 2-5 values (real and complex) and 4x4, 2x4, 4x3, 2x5, 1x6 and transposed over 2-3; every pattern of zeros to 4x4 with distinct elements; 15 block structures (rectangular blocks, null rows and columns) in 20 permutations; 11 structured families to size 40, and 66 and 131, also rectangular; scales 1e-280 to 1e280, with weakly linked blocks; both routines, both modes, all requests of outputs, the accurate_svd flag',
                  thorough='more alphabets, 5x4, 60 permutations, size 70'))

check('C19', level='model_checking', lib=['linalg', 'arpack'], asan=False,
      rule='one case per block of up to 700 matrices, structured matrix, scale, spectrum or rejected shape; non-trivial: all with eigenvalues to compute',
      bounds=dict(quick='eig, expm: all real matrices 1x1-2x2 over 5 values, 3x3 over {0,1,-1}, a quarter of 4x4 over {0,1}, complex to 2x2 over 4 values, 3x3 over {0,i}, all requests of vectors, orders 1-12, scales 1e-300 to 30; eig_sym: all symmetric and Hermitian to 4x4 over 3-5 values; eigs: all small matrices of real spectrum and all complex ones to 2x2 over 4 values, 3x3 over {0,i}, in 3 forms, all 6 criteria, all counts, with and without start; Hermitian families size 4-14 and 25, known complex spectra size 3-9 through ARPACK; exponentials of normal matrices of norm up to 1e7 at orders 5-9; 6 hard spectra of size 6, 26, 90 with every criterion in 3 forms, with and without asking for convergence; power iteration from given and random starts on integer matrices P D P^-1 size 1-6 in 3 forms; 11 structured families to size 36, and 66 and 131',
                  thorough='3x3 complex over {0,1,i}, all of 4x4 over {0,1}, ARPACK to size 30, structured to size 60'))

check('C20', level='model_checking', lib=['fftw'], asan=True,
      rule='one case per shape with every unit input (times 1 and i), index, subset of indices and direction inside; non-trivial: more than one element or a refusal',
      bounds=dict(quick='unit inputs: lengths 1-48, all shapes of rank 2 with extents 1-9, rank 3 with 1-4, rank 4 with 1-3, every index, every subset, both directions, in and out of place and shifts; dense inputs at three scales also on lengths 1-70 and 24 others to 2310; inputs with few elements on lengths to 1048576 and 20 shapes to rank 6; shapes without elements; refused arguments',
                  thorough='unit inputs on lengths to 100, extents 1-12, 1-6, 1-4'))

check('C21', level='model_checking', lib=[], asan=False,
      rule='one case per seed and kind of draw, first two draws of a history, kind of limit or rank; non-trivial: all',
      bounds=dict(quick='13 seeds x 16 kinds of draw x 20000 draws and 1000 draws from 1088 seeds around powers of two; every history of up to 3 draws of 16 kinds from 8 positions of the generator block, of 4 draws from 2; seeding again at every state of two blocks; limits 1-300 and around every power of two; 10^9 numbers of 16 streams compared, those with 25 leading ones or zeros drawn as reals; all shapes to rank 6',
                  thorough='200000 draws, histories of 5, 8 positions, 6.4*10^9 numbers'))

check('C22', level='model_checking', lib=['linalg', 'fftw', 'arpack'], asan=False,
      rule='one case per operation and element type (all shapes and storage states inside), per first operation of a history, or per use of a file, job or iteration; non-trivial: something was carried out, not refused',
      bounds=dict(quick='about 190 operations of one operand (24 shapes of rank 0 to 6) and 45 of two operands (13x13 shapes), real and complex, operands owned, shared or over foreign memory; every history of two operations on a handle; Krylov iterations of every kind abandoned after 0-7 steps or finished; all file modes, record types and ways of ending; job descriptions and data sets; each repeated until steady and then counted over three calls',
                  thorough='all shapes to 4x4 and 2x2x2, histories followed by every one of 14 changes of the handle'))

check('C23', level='model_checking', lib=[], asan=False,
      rule='one case per first records of a sequence, mode and number of sessions, name, kind of machine or size of a data set; non-trivial: all',
      bounds=dict(quick='30 kinds of record (scalars, real and complex tensors of rank 0 to 6, empty ones, lists of 0-20): every sequence of up to 2, of 3 from 13 kinds; all modes, up to 4 sessions; names of length 0-63, 21 special ones and names differing in one of 137 characters in every position; both byte orders and integer sizes for every pair of kinds; every truncation (beyond 900 bytes every 13th) and unknown tag of files of every kind; data sets of up to 4 files in every order',
                  thorough='every sequence of 3 of the 30 kinds'))

check('C24', level='model_checking', lib=['linalg', 'arpack'], asan=False,
      rule='one case per problem, stage of the iteration and first call (all words inside), refused size or sorted length; non-trivial: all that reach their stage',
      bounds=dict(quick='all words of 3 of the 12 calls, with all their arguments, at the first 4 stages and at the end of the iteration for 8 real and 12 complex problems of size 6 (words of 2 for size 30); each call at every stage, abandoned iterations, for 3 spectra, sizes 3-41, all criteria, 1-11 values; real and complex iterations interleaved in every order of 9-10 steps; 3 kinds of limits; sizes 0-7 with every count and criterion; all lists to length 5 over 7 numbers',
                  thorough='words of 4 (3), every point of the iterations, orders of 12 steps, lists of 6'))

check('C25', level='model_checking', lib=[], asan=False,
      rule='one case per campaign and part of its schedules, or ten points of a kill; non-trivial: all that reach a kill or run to the end',
      bounds=dict(quick='2-4 processes of 5 styles and 1-6 jobs of 1-2 variables under all schedules with <=1-2 preemptions (each further switch where a process waits or ends is free); directory absent, empty, with stale temporaries or with every subset of 4 records; one process killed before each of its calls under <=0-1 preemptions and started again; 24 job numbers around 2^31, 2^32 and 2^33 in three orders',
                  thorough='one preemption more'))

check('C26', level='model_checking', lib=['linalg'], asan=True,
      rule='one case per block of up to 300 matrices, or number of arguments; non-trivial: all',
      bounds=dict(quick='all matrices to 3x3 over 5-6 values (to 2x2), 3 (6 elements), 2 (9 elements), and 9 larger shapes in 12 patterns, dense and sparse, with all unit vectors; closures of 1-5 numbers and tensors of length 0-4',
                  thorough='4 and 3 values'))

check('C27', level='model_checking', lib=[], asan=True,
      rule='one case per shape, first element of a word or first operation; non-trivial: something to show',
      bounds=dict(quick='tensors of all shapes to rank 3 with extents 0-3 and some of rank 4-6, words of up to 3 of 14 special numbers, 6 formats of the stream; 400 pairs of special numbers; every history of 5 flag operations',
                  thorough='words of 4, histories of 6'))
