T.update({
 'C14': ('online monitor: recovered polynomials and reconstructions judged by reference arithmetic', 'Fourteen fields, up to 300 parties, all threshold subsets of small cliques and random ones of large cliques in random order.'),
 'C15': ('recovered coefficients judged by joint chi-square statistics and generator replay', 'Joint distributions of shares and of coefficients within and across calls, per secret; alarm below p = 1e-10 per test. Small biases stay unseen.'),
 'C16': ('online monitor: share programs against plain evaluation; refusals observed', 'Random programs of share operations by all participants, every intermediate share interpolated; mixed participants must be refused.'),
 'C17': ('online monitor on a simulated clique: interpolated result shares against the product', 'Random cliques, thresholds, batches, fields and message schedules; triple counts and mask reuse checked.'),
 'C18': ('online monitor on a simulated clique: interpolated result shares against the inverses', 'Random cliques, thresholds, batches, fields and message schedules; runs with a zero joint mask are set aside.'),
 'C19': ('online monitor on a simulated clique: interpolated result shares against the OR', 'Random cliques, thresholds, widths up to 90 bits, fields and schedules, many runs per process so that tables of earlier widths are reused.'),
 'C20': ('online monitor on a simulated clique: interpolated result shares against the chosen operand', 'Random cliques, thresholds, fields and message schedules.'),
 'C21': ('recorded contributions against interpolated numbers; statistics with broken generators; replay', 'Exact sums, freshness and provenance of each contribution; joint uniformity with all but one generator broken.'),
 'C22': ('recorded opened values: exact relations in a large field, two-sample statistics over inputs in small ones', 'All opened values, opened shares and contributions recorded; their joint distributions compared between inputs. Dependences too small for the samples stay unseen.'),
 'C23': ('online monitor of sessions under adversarial schedules and real threads', 'Random programs, starving, reversed, eager, lazy and spurious-wake schedules, random threshold subsets for openings; stalls and step mismatches are violations.'),
 'C24': ('ThreadSanitizer and result monitor on concurrent sessions in cold processes', 'Many fresh processes with 8 to 16 threads, natively and under ThreadSanitizer (rebuilt standard library). Sees the schedules that happened.'),
 'C25': ('recording implementations behind every delegatable trait', 'Every call compared with the record of the implementation reached: arguments, generics, generator, instance, result, one invocation; library and user-declared traits.'),
 'C26': ('online monitor of recorded conversations', 'Random conversations delivered in order, several primitives, long sessions; each text compared.'),
 'C27': ('online monitor of conversations under reordering and loss', 'Random loss, delay and reordering across key changes; text and out-of-order report of each first arrival compared.'),
 'C28': ('online monitor of replays', 'Copies of delivered messages at random later times; refusal observed, all other deliveries compared.'),
 'C29': ('instrumented primitives: key uniqueness, key pair freshness, KDF discipline', 'Every encryption key, generated pair, derivation input and output recorded and checked for reuse.'),
 'C31': ('fault injection with an online monitor: results of the sessions around failing ones', 'Sessions dropped, starved of messages, broken by a panicking transport or misused at random moments, in hundreds of processes, single- and multi-threaded; every healthy session before, during and after is compared with the plain result.'),
 'C32': ('instrumented key types: every secret alive in a party, closed under the recorded derivations', 'After the operations of random conversations all live secrets of a party are closed under all recorded key exchanges and derivations; no key of a message it sent or decrypted may follow, and after key changes no later key either. Sees only secrets kept in the key types of the injected primitives.'),
 'C33': ('online monitor of a clique in lockstep: rounds counted', 'Every operation with random batch sizes (up to 1200), cliques up to 40 parties and three fields; rounds compared with those of small batches in small cliques. Assumes a transport that sends when asked.'),
 'C34': ('counting allocator: live bytes after thousands of uses of every part, peak bytes of long hashes, bytes held by conversations', 'Hashes, fields, key exchange, RSA, sharing, finished and failed protocol sessions, conversations in order and with gaps. Growth counts if it goes on, so tables filled once and bounded caches are allowed.'),
})
