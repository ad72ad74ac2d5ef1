"""Which function decides which property, and what it has to observe for a verdict."""
NOTIE = 'A case is non-trivial if the reference models (with clipped and with exact log-likelihood arithmetic) agree and no decision is closer than 2e-8; counted by code description and received vector.'
CHECKS = {}


def add(pid, mod, fn, rule, evaluations='cases', need=None, level='exploration', assumptions=()):
    CHECKS[pid] = (mod, fn, dict(rule=rule, evaluations=evaluations, need=need or {}, level=level, assumptions=list(assumptions)))


# What the manifest says: deciding method, assurance.
REF = 'reference-model monitor over generated codes and received vectors'
NOTE_REF = 'Every execution is compared with an independent model run in two arithmetics; vectors on which the models disagree or a decision is within 2e-8 of a tie are not judged. Assumes IEEE doubles; sampled, not exhaustive.'
METHOD = {
    'C01': ('closed-form encoder oracle, exhaustive words for small codes', 'Exact comparison; codes and long words are sampled.'),
    'C02': ('noiseless channel oracle over generated codes, settings and noise levels', 'Exact comparison; sampled over codes and noise levels down to 1e-15.'),
    'C03': (REF, NOTE_REF), 'C04': (REF, NOTE_REF), 'C05': (REF, NOTE_REF), 'C06': (REF, NOTE_REF), 'C07': (REF, NOTE_REF),
    'C08': ('polynomial division oracle, exhaustive for short polynomials', 'Exhaustive for polynomials up to length 5 and words up to 9; sampled beyond.'),
    'C09': (REF + ' and relations between permuted runs', NOTE_REF), 'C10': ('relational monitor of pairs of decodings', NOTE_REF),
    'C11': ('exhaustive maximum likelihood oracle', 'All codewords of small codes are enumerated; vectors sampled; ties and clipping not judged.'),
    'C12': ('differential monitor of call histories against fresh processes, canaries', 'Random histories up to 14 calls and 4 live codecs.'),
    'C13': ('ASan, UBSan, LSan, MSan with poisoned gaps in the decoder memory', 'Detects errors on executed paths only; gaps of 32 bytes.'),
    'C14': ('generated invalid and valid descriptions under ASan/LSan, accept/reject oracle', '20 kinds of defects; defects outside them are covered by C16 for memory only.'),
    'C30': (REF + ' under ASan', NOTE_REF), 'C33': (REF + ' for builds with the min-sum format', NOTE_REF),
    'C39': (REF + ' for builds with HARD_INPUT, relations between vectors of equal signs, nearest codeword oracle', NOTE_REF),
    'C34': ('differential monitor of decoders of several families', 'Vectors with ties (by the reference model) are not judged; sampled.'),
    'C31': ('statistical monitor of complete runs against closed forms', 'Statistical: 6.5 standard deviations; codes with known error rates only.'),
    'C32': ('online monitor of output and results file on a virtual clock', 'Virtual time advances in decodings only; saving takes no time.'),
    'C35': ('differential monitor of builds', 'x86-64, two compilers without fused multiplication; sampled parameter files.'),
    'C36': ('closed-form encoder oracle under ASan', 'Exact comparison; sampled.'),
    'C15': ('differential monitor of parameter files in many forms', 'Sampled forms; one reference grammar; files below the size limit.'),
    'C16': ('ASan, UBSan, LSan under hostile files, reference reader', 'Mutation based, without coverage feedback; single allocations limited to 600 kB so that every refusal path is reached.'),
    'C17': ('independent counting at the interposed codec interface', 'Exact comparison of counts; uniformity of information words tested statistically (7 standard deviations).'),
    'C18': ('online monitor of the stopping rule at every trial', 'Every state of sampled simulations; bounds on the estimate, not its formula.'),
    'C19': ('statistical monitors of every noise sample', 'Statistical: deviations above about 0.2 % of a pooled moment or correlation are found, false alarms at 7 standard deviations (and 6 for single runs with many tests).'),
    'C20': ('independent judgement of every decoded word', 'Exact comparison, distances computed in extended precision; simulations with ties in soft distances not judged.'),
    'C21': ('relational monitor of pairs of runs', 'Exact comparison of all observable results, sampled histories.'),
    'C22': ('model of the results file, compared after every save', 'Exact comparison, sampled histories.'),
    'C23': ('controlled scheduler of file operations of real processes, file state checked after each', 'All schedules up to 2 (1) involuntary switches for most generated worlds, else sampled; single writes to a file are not separated.'),
    'C24': ('fault injection at every file operation, crash at every operation', 'Exhaustive in the single failing operation and kind for each sampled history; power loss not covered.'),
    'C25': ('recomputation of every printed number, loadsrf on a MEX stand-in', 'Exact to the printed precision; sampled counts.'),
    'C26': ('process level monitor of exit status, output and files; ASan', 'Sampled parameter files and options; the shipped examples are completed only in shortened form.'),
    'C27': ('online monitor of strings at every return', 'Exact to the printed precision; sampled simulations.'),
    'C37': ('allocation and file monitors over histories of simulations, ASan, UBSan, LSan, MSan', 'Allocations made through strdup and the like are only seen by LeakSanitizer; sampled histories.'),
    'C38': ('allocation failure injection, differential with undisturbed runs, ASan', 'Every single allocation and all from it on for codecs; sampled allocations of simulations.'),
    'C28': ('differential monitor of two arithmetic formats', NOTE_REF), 'C29': ('differential monitor against fixed list decoders', NOTE_REF),
}


add('C01', 'codec', 'check', 'Random code descriptions of all four decoders; words: all for k <= 6, else zero, ones, unit and random words, compared with the closed form of the (u+v,u) construction and across families. Distinct: code descriptions.',
    'encodings', {'encodings': 20000, 'cross family encodings': 2000})
add('C02', 'codec', 'check', 'Random codes, list sizes, permutation sets and noise levels (1e-15..2), received vectors are positively scaled codeword images. Distinct: description, vector and noise level.', 'decodings',
    {'decodings': 4000, 'saturated decodings': 500})
for c, k in (('C03', 'dtrm0'), ('C04', 'dtrm1'), ('C05', 'dtrm_glp'), ('C06', 'polar'), ('C07', 'CRC-aided polar')):
    add(c, 'codec', 'check', 'Random %s codes and noisy received vectors (AWGN, fading, pure noise; matched and mismatched noise level). ' % k + NOTIE, 'vectors',
        dict({'decided': 4000, 'decoding errors': 500}, **({'decided with pruning': 2000} if c in ('C05', 'C06', 'C07') else {}), **({'erasures': 200, 'valid but not the best metric': 200} if c == 'C07' else {})))
add('C08', 'codec', 'check', 'All polynomials of length 1..5 with all words up to 9 symbols, random longer ones; every wrong CRC of short length, single and random errors otherwise. Distinct: polynomial and word (exhausted polynomials count once).', 'remainders',
    {'remainders': 20000, 'validity checks': 100000, 'polynomials exhausted': 62})
add('C09', 'codec', 'check', 'Random RM codes, 1..20 permutations and noisy received vectors, also with reordered permutation sets. ' + NOTIE, 'vectors',
    {'decided': 1500, 'single permutation relations': 500, 'decided with several permutations': 500, 'decided with more permutations than list places': 30, 'reordered sets': 300, 'decided, length 128 and more': 300})
add('C10', 'codec', 'check', 'Pairs of decodings of a received vector and of the same vector with the signs flipped by a codeword. ' + NOTIE, 'vectors', {'pairs': 4000, 'pairs with decoding errors': 800, 'pairs with erasures': 30, 'decided, length 128 and more': 2000})
add('C11', 'codec', 'check', 'Random small codes, all codewords enumerated; full lists. Non-trivial: correlation margin above 1e-3 and clipping immaterial.', 'vectors',
    {'decided dtrm1': 500, 'decided glp': 500, 'decided polar': 500, 'ML decoding errors': 200})
add('C12', 'codec', 'check', 'Random histories of 6..14 calls over 1..4 codecs of the same process (creation, failed creation, closing, noise level, encoding, decoding) with prefilled outputs and canaries; each answer is compared with that of a process in which nothing was called before. Distinct: histories.',
    'calls compared with a fresh process', {'calls compared with a fresh process': 4000})
add('C13', 'memsafe', 'check', 'Random descriptions (up to length 2^11, lists to 256, up to 40 permutations, variable lists) and received vectors incl. ties, zeros, huge and denormal values, run with AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer (gcc) and MemorySanitizer (clang). Distinct: description and vector.',
    'decodings', {'decodings': 5000, 'msan decodings': 300})
add('C14', 'codec', 'check', 'Random descriptions: 20 kinds of defects, and valid ones with reordered and unknown parameters; run with AddressSanitizer and LeakSanitizer. Distinct: description.', 'cases', {'invalid descriptions': 3000, 'valid descriptions': 1000, 'invalid permutations of many variables': 60, 'valid permutations of many variables': 40})
add('C28', 'codec', 'check', 'Random codes and received vectors decoded by builds with the clipped tanh format and with the log likelihood ratio format. ' + NOTIE, 'vectors', {'pairs': 4000, 'pairs with decoding errors': 500, 'pairs with erasures': 30, 'noiseless words of very reliable symbols': 1000, 'decided, length 128 and more': 1000})
add('C29', 'codec', 'check', 'Random size/threshold lists (1..4 sizes, also decreasing), 6 vectors per codec in sequence, compared with fixed size codecs. Distinct: description and vector.', 'vectors',
    {'decided': 4000, 'answered at size #1': 500, 'answered at size #2': 300, 'answered at size #3': 100, 'decoding errors': 300, 'decided, length 128 and more': 2000})

add('C30', 'codec', 'check', 'Random first order codes (length 2 to 8192) with noisy, noiseless and random vectors; all four functions of the library and lists of 1 to over 4096 words compared with likelihoods of all linear forms. Run with AddressSanitizer. Non-trivial: models with clipped and exact arithmetic agree and no two forms are closer than 2e-8; distinct: vector.', 'vectors',
    {'decided': 5000, 'decoding errors': 300, 'lists': 2000, 'list entries compared': 30000, 'decodings by rm1_dec_sh_dotp': 2000, 'noiseless': 1000, 'lists longer than the code': 100})
add('C33', 'codec', 'check', 'Random codes and received vectors decoded by builds with the min-sum format and by a model of min-sum recursive (list) decoding. Non-trivial: no decision is closer than 2e-8; distinct: description and vector.', 'vectors',
    {'decided': 20000, 'decided dtrm0': 3000, 'decided glp': 3000, 'decided polar': 6000, 'decoding errors': 3000, 'decided with pruning': 5000, 'erasures': 300, 'decided other than by exact decoding': 1000, 'vectors of very reliable symbols': 3000, 'noiseless words of very reliable symbols': 1000, 'decided, length 128 and more': 1500})
add('C34', 'codec', 'check', 'Codes that belong to several families decoded by all their decoders: without lists, with equal lists where all nodes have one symbol, first order codes with full lists. ' + NOTIE, 'vectors',
    {'vectors compared': 20000, 'decoding errors': 3000, 'pairs with dtrm1': 3000, 'lists compared': 3000, 'full lists compared': 3000})
add('C36', 'codec', 'check', 'Random RM codes and subcodes (length 1 to 65536): dimensions and codewords of every encoding function compared with closed forms. Run with AddressSanitizer. Distinct: cases.', 'words',
    {'words': 20000, 'BPSK words': 10000, 'inversions': 2000, 'dimensions': 8000, 'subcodes': 2000, 'subcodes, one symbol per node': 2000})
add('C39', 'codec', 'check', 'Random codes of all families decoded by builds with HARD_INPUT and each of three formats: pairs of received vectors with equal signs, words without channel errors, nearest codewords (full lists, ties included), and the reference models of the two-valued channel where no decision is tied. Distinct: description and signs.', 'vectors',
    {'pairs of equal signs': 20000, 'decided by reference': 10000, 'decided dtrm0': 1500, 'decided dtrm1': 3000, 'decided glp': 1500, 'decided polar': 3000, 'decided with decoding errors': 3000, 'erasures': 200, 'nearest words other than the received': 2000, 'words without channel errors': 3000, 'decided, length 128 and more': 200})

# Simulator: executions of the real simulators, all four programs.
add('C15', 'sim', 'check', 'Random key/value lists, and random simulations, written in random forms (separators, line ends, comments, glued braces, nested include files, padding, reordered and unknown parameters, switches that are not on; in directories with files of the same name elsewhere); items and simulation results are compared. Distinct: file texts.', 'cases',
    {'files parsed': 500, 'forms compared': 500, 'files in directories': 200, 'files of the same name elsewhere': 1000, 'includes': 3000, 'comments': 3000, 'glued braces': 3000, 'unknown groups': 300, 'switches not on': 300, 'large files': 20, 'repeated parameters': 100})
add('C16', 'sim', 'check', 'Mutated and oversized parameter files, include files and results files read by all four programs and by loadsrf under AddressSanitizer, UndefinedBehaviorSanitizer and LeakSanitizer; plain files also compared with an independent reading. Distinct: file contents.', 'cases',
    {'parameter files': 2500, 'results files': 700, 'files loaded to Octave': 700, 'accepted': 800, 'refused': 2500, 'readings compared': 1200})
add('C17', 'sim', 'check', 'Random simulations with real and scripted decoders; every encoding and decoding is observed and counted independently, counts are compared with the saved results. Non-trivial: has block errors and erasures; distinct: configuration and received words.', 'words',
    {'files compared': 8000, 'words': 200000, 'block errors': 50000, 'erasures': 30000, 'pooled statistics': 15, 'simulations of long codes': 5})
add('C18', 'sim', 'check', 'Random simulations returned from after every trial, with random requests; stopping rule evaluated at every state. Non-trivial: more trials than points; distinct: configuration, received words and requests.', 'states observed',
    {'completed simulations': 1500, 'states observed': 500000, 'requests for more': 800, 'requests for less': 800, 'requests for next': 800, 'estimates observed': 200000})
add('C19', 'sim', 'check', 'Random codes, rates and SNR lists; every noise sample is normalized with the sample of the reference formula; moments, tails, distribution and correlations (lags, words, points, transmitted symbols) tested per simulation and pooled. Distinct: configurations.', 'noise samples',
    {'noise samples': 5000000, 'statistics': 3000, 'pairs of SNR points compared': 150, 'pooled statistics': 25, 'cases with the own generator': 60})
add('C20', 'sim', 'check', 'Random simulations with soft and hard ML bound; every judged word is judged independently. Non-trivial: has ML errors and other errors; distinct: configuration and received words.', 'words judged',
    {'files compared': 1000, 'words judged': 300000, 'words judged, hard': 200000, 'ML errors': 5000, 'simulations with the bound off': 50})
add('C21', 'sim', 'check', 'Pairs of runs of the same parameter file with different interruption, reporting and saving histories, and pairs of randomized runs. Distinct: configuration and histories.', 'pairs compared',
    {'pairs compared': 1500, 'randomized pairs': 150, 'interruptions': 200000, 'saves in between': 20000, 'cases with the own generator': 200})
add('C22', 'sim', 'check', 'Random histories of runs saving into the same file (same and other SNR lists, several saves per run, preset and full files), compared with a model after every save. Distinct: histories.', 'files compared',
    {'files compared': 8000, 'entries compared': 200000, 'saves into a full file': 150})
add('C23', 'sim', 'check', '2..4 processes saving concurrently; every file operation and the order of processes is scheduled: all schedules with up to 2 (two processes) or 1 involuntary switches, up to a limit, and random ones; the file is read after every operation. Distinct: world and sequence of operations.', 'schedules',
    {'schedules': 12000, 'states of the file read': 400000, 'successful saves': 30000, 'worlds with all schedules within the bound': 40})
add('C24', 'sim', 'check', 'Every file operation and allocation of a save made to fail in turn, several failures, size limits, busy flags, malformed old results; processes killed at every operation of a save. Distinct: configuration, history and failure.', 'failed saves',
    {'failed saves': 4000, 'recovering saves': 3000, 'malformed old results': 1000, 'busy saves': 250, 'processes killed while saving': 200})
add('C25', 'sim', 'check', 'Saved results files with random, large and extreme counts: every printed number recomputed, files loaded by loadsrf (its real code on a stand-in for the MEX interface), also in other forms and with inconsistent data. Distinct: file contents.', 'files checked',
    {'files checked': 3000, 'files loaded': 800, 'inconsistent files': 3000, 'other forms loaded': 1200})
add('C27', 'sim', 'check', 'Status and results strings parsed at every return of random simulations and compared with independent counts. Distinct: configuration and received words.', 'state strings',
    {'state strings': 80000, 'result lines': 500000})
add('C26', 'cli', 'check', 'The four programs run as processes: all shipped examples (started unchanged; completed with fewer trials at lower SNR), random valid parameter files with random options, and 20 kinds of invalid arguments, files, parameters and results files. Distinct: parameter files and arguments.', 'cases',
    {'completed runs': 200, 'examples started unchanged': 30, 'examples completed': 50, 'runs that have to fail': 400, 'runs into a results file': 60, 'runs repeated with other options': 20, 'printed rows': 800, 'randomized runs compared': 20, 'saving intervals observed': 20})
add('C32', 'prog', 'check_clock', 'The four programs run with a virtual clock advanced by every decoding (random durations); between any two decodings the output shown and the results file are inspected. Non-trivial: longer than two status intervals; distinct: parameters, options and durations.', 'trials observed',
    {'trials observed': 100000, 'status updates': 10000, 'intermediate saves': 3000, 'runs longer than both default intervals': 3})
add('C31', 'prog', 'check_theory', 'The four programs simulate codes with a known error rate under the decoding in question (uncoded transmission, codes with one information bit, first order and single parity check codes with maximum likelihood decoding); word and bit error rates are compared with closed forms, and the ML bound with the errors of ML decoders. Distinct: parameters and SNR value.', 'trials',
    {'error rates compared': 500, 'trials': 10000000, 'bounds of ML decoders compared': 200})
add('C35', 'prog', 'check_builds', 'The documented builds (make, cmake) and seven builds by gcc and clang with different optimizations, with and without NDEBUG, with preset local variables and unsigned characters run the shipped examples (shortened) and random parameter files with -nr, also twice into the same results file; exit status, output and results files are compared. Distinct: parameter files.', 'runs',
    {'documented builds': 2, 'builds': 7, 'runs compared': 2500})
add('C37', 'sim', 'check_memory', 'Random histories of one or two simulations alive at a time (creation, interruption, reports, requests, saves with and without file errors, abandonment); allocated blocks and open files are observed throughout; complete programs run with MemorySanitizer. Distinct: histories.', 'simulations',
    {'simulations': 1500, 'saves': 3000, 'failed saves': 300, 'times all simulations were closed': 700, 'runs with MemorySanitizer': 300})
add('C38', 'sim', 'check', 'Every allocation of creations, encodings and decodings of random codecs refused in turn (alone, and with all that follow), random allocations of simulations refused; results compared with undisturbed ones and with independent counts. Distinct: descriptions and vectors, simulations.', 'allocations refused',
    {'allocations refused': 5000, 'encodings short of memory': 300, 'decodings short of memory': 300, 'creations short of memory': 1000, 'runs ended for lack of memory': 500, 'results compared after failures': 300, 'simulations completed': 100})
