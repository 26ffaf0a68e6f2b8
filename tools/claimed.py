NOT_APPLICABLE=[]
CLAIMED["C01"]=("runtime monitor: every emitted delta batch applied to a shadow target and compared after each event with an independent reference evaluator, over random pipelines and random event histories",
 "Observed executions only: random pipelines of up to 5 operators over 1-3 sources and histories of up to 40 events; gathered list order excepted.")
CLAIMED["C02"]=("runtime monitor: Sync() output applied to a deliberately diverged target collection and compared with an independent reference evaluator, interleaved with incremental evaluation",
 "Observed executions only; divergence injected through the exported target cache.")
CLAIMED["C03"]=("runtime monitor: online trace checker over every emitted delta batch (uniqueness, order, existence, real change, GVK)",
 "Observed executions only; same workload generator as C01 with emphasis on renames, moves and key swaps.")
CLAIMED["C04"]=("runtime monitor with fault injection: failing, duplicated, replayed and unknown events injected into random histories; state compared with a reference evaluator that never saw the failing event",
 "Observed executions only; faults are data dependent expression errors, invalid results and duplicate deliveries.")
CLAIMED["C05"]=("runtime monitor: algebraic-law oracles and an independent multiset model over random dataflow graphs, optimised against unoptimised and incremental against snapshot execution",
 "Observed executions only: random graphs with joins of arity 2-4, chains of up to 5 operators, weights in -3..3.")
CLAIMED["C06"]=("runtime oracle: online comparison of every evaluation with an independent reference interpreter under random and directed workloads",
 "Observed executions only: random typed expressions up to depth 4 and a directed corner list, on random documents; @rnd/@now by range and format.")
CLAIMED["C07"]=("runtime monitor: panic, crash and hang detection (recover, child process supervision, deadlines) under hostile generated and mutated specifications and data",
 "Observed executions only; mutation based generation, no coverage feedback.")
CLAIMED["C08"]=("runtime monitor: random sequences of serialise/parse/deep-copy trips over generated specifications, with textual identity and behavioural equality against the original on probe inputs, plus scribbling over copies",
 "Observed executions only: YAML trips skip integral float literals; @rnd/@now compared textually.")
CLAIMED["C09"]=("runtime alias monitor: snapshot and scribble over everything passed in or received, comparison with an unscribbled twin or model, and pointer-identity scans of results against inputs",
 "Observed executions only; raw informer indexers (read-only by convention) excluded.")
CLAIMED["C10"]=("runtime monitor: recorded concurrent histories checked for linearizability with porcupine against a sequential store model (delays injected at the code's log statements), a sequential differential workload over all verbs and selectors, and a lost-update conservation stress",
 "Observed interleavings only: up to 5 clients and 40 operations per history; DeleteAllOf checked sequentially only.")
CLAIMED["C11"]=("runtime monitor: per-key event traces of handlers and watchers, registered and removed at random moments of concurrent writes, checked against the true version sequence projected through their selection; burst and re-entrancy stress with hang detection",
 "Observed interleavings only; entering a selection may be announced as added or modified; at most one in-flight event tolerated after removal.")
CLAIMED["C12"]=("runtime monitor: the C10/C11 trace oracles over several caches attached to one shared store with random set-up, removal and stop order",
 "Observed interleavings only: up to 8 access paths; handlers of a stopped cache may see a prefix.")
CLAIMED["C13"]=("runtime oracle: every filter decision of real sources, driven through their real event handlers, compared with an independent evaluation of namespace, selector and predicate tree on generated old/new object pairs",
 "Observed executions only: predicate trees up to depth 4; a source whose object leaves its selector delivers no delete, as controller-runtime defines.")
CLAIMED["C14"]=("runtime monitor with fault injection: after every write the complete store (views, and a fake API server with conflicts, injected errors and foreign changes) compared with an independent model; concurrent-writer conservation oracle",
 "Observed executions only; native API server is controller-runtime's fake one.")
CLAIMED["C15"]=("runtime monitor with fault injection: after every patch or patch removal the complete store (views, and a fake API server with conflicts, injected errors and foreign changes) compared with an independent model; concurrent-writer conservation oracle",
 "Observed executions only; list items are patched and removed by position, repeating a removal of list items is excepted.")
CLAIMED["C16"]=("runtime monitor with fault and delay injection: real operators on shared view stores and on a real API server (envtest) under random write histories; at quiescence the content of every target is compared with an independent interpreter of the controllers' pipelines",
 "Observed executions only: up to 3 operators with 4 controllers; 60 s to converge before a violation is reported; objects of a former incarnation of the operator excepted.")
CLAIMED["C17"]=("runtime monitor: recording work queues count the requests of one-shot and periodic sources under hostile writes to the trigger views; running operators whose targets (views and native resources on a real API server) are tampered with are compared at quiescence with an independent interpreter of their pipelines",
 "Observed executions only: periods of 3 to 25 ms; a starved timer is tolerated twice; 60 s to converge.")
CLAIMED["C18"]=("runtime monitor with fault injection: error reporters compared with a sequential model and, under concurrency, checked for retained-suffix and exactly-once notification; operators with invalid and failing controllers and unread or closed error channels, whose statuses are compared with what was made to fail while the siblings' views are compared with their pipelines",
 "Observed executions only; that an operator survives a source that never syncs for over two minutes is watched in the thorough tier only.")
CLAIMED["C22"]=("runtime oracle: tokens made with known validity (signed, mutated, confused algorithms, foreign keys, time windows, malformed headers) judged by the real authenticator, alone and inside running HTTP and HTTPS servers, compared with how they were made",
 "Observed executions only; RSA-PSS, non-canonical base64 of the same signature and times within seconds of a limit are not judged.")
CLAIMED["C23"]=("runtime oracle: decisions of the real authorizer compared with an independent evaluation of the documented rules; running HTTP and HTTPS servers under requests of generated users, with a monitor that compares the view store before and after and searches every reply for content the user may not see",
 "Observed executions only; patterns with several asterisks are not judged.")
CLAIMED["C24"]=("runtime monitor: the dctl binary run with generated command lines; files, modes, tokens and output compared with the command line, the conferred authority compared with an independent evaluation, and a server started by dctl on a real API server (envtest) queried with generated credentials",
 "Observed executions only.")
CLAIMED["C21"]=("runtime oracle: a running API server under generated requests of every verb, patch type and selector, mixed with direct store clients; every reply and the complete view store after every request compared with an independent model; watch streams checked against the changes made; conservation oracle over concurrent patches, updates and applies",
 "Observed executions only; pagination, table output and field selectors not judged; requests of objects without namespace not judged.")
CLAIMED["C19"]=("runtime monitor with delay injection: operators whose every version stamps its writes are added, replaced and removed (directly and as custom resources on a real API server, envtest) under concurrent writes and status reads; views, statuses, discovery and REST endpoints compared with the operators that exist, and whatever a replaced or removed version has written checked to be frozen",
 "Observed executions only: up to 6 operators; 60 s to converge; objects written by former versions stay in the store.")
CLAIMED["C20"]=("Go race detector, crash and hang detection over the concurrent workloads of the other checks and a mixed workload that runs store clients, informers, watches, operators, status reads, API group registration and REST requests at once, with delays injected",
 "Observed interleavings only; races between library code alone are not reported; closing of an operator's error channel by its owner is excepted.")
CLAIMED["C25"]=("runtime oracle: registration and removal sequences and lookups of generated names compared with an independent set model of the naming rules in view discovery, REST mappers, clients, references and map functions",
 "Observed executions only; kinds that end in List are list kinds by convention; the singularizer of resource names is not judged.")
CLAIMED["C26"]=("runtime monitor with fault injection: operators on a real API server (envtest) copy the payloads that their pipelines see of generated Secrets and look-alikes into views, also after failures and retries; compared with an independent decoder, and the stored Secrets and informer copies with what was written",
 "Observed executions only.")
CLAIMED["C27"]=("runtime oracle: diagrams of generated operators, drawn by the library and by the dctl binary in both formats, parsed back and compared edge by edge with the data flow in the specification",
 "Observed executions only; colours, shapes and layout are not judged; controllers have unique names.")
