#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept as a script for readable diffs).
import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},
              "why_tests_cant":why,"anchors":a})

prop("C01","Incremental evaluation equals from-scratch evaluation",
 "For every valid pipeline (any composition of @join over n sources, @select, @project, @unwind, @gather) and every history of source object additions, updates, upserts and deletions, applying the emitted target changes in order yields, after every single event, exactly the collection that a from-scratch evaluation of the pipeline over the current source objects yields (list order inside gathered lists excepted). In particular nothing is left behind once all contributing source objects are gone, and the order in which sources changed does not matter.",
 ["histories","programs","inputs"],"all pipelines, all event histories over all sources, including deletes that carry an object state different from the last processed one, re-adds and label/field flips that move objects in and out of a selection or join",
 "Existing tests check a handful of hand-written pipelines with two or three events each; the guarantee quantifies over all operator compositions and histories, where retractions cancelling earlier insertions is what breaks.",
 ["pkg/pipeline/pipeline.go","pkg/pipeline/zset_adaptor.go","pkg/pipeline/op.go","pkg/dbsp/op_bilinear.go","pkg/dbsp/op_linear.go","pkg/dbsp/op_nonlinear.go","pkg/dbsp/executor.go"],
 [("source cache turns events into +/- document multisets","pkg/pipeline/zset_adaptor.go ConvertDeltaToZSet"),("incremental n-ary join","pkg/dbsp/op_bilinear.go"),("lifted gather","pkg/dbsp/op_nonlinear.go, rewrite_engine.go"),("target reconciliation","pkg/pipeline/zset_adaptor.go Reconcile")],
 ["return value of Evaluate","target cache"],[("source caches","last processed state of every source object","pipeline.sourceCache"),("target cache","what the controller believes it has written","pipeline.targetCache")])

prop("C02","State-of-the-world sync computes exactly the missing difference",
 "Whatever history preceded it and whatever happened to the recorded target state in between, a state-of-the-world synchronisation emits exactly the changes that turn the recorded target collection into the from-scratch result of the pipeline over the current sources: nothing missing, nothing extra, stale objects deleted, diverged objects rewritten, untouched objects not re-emitted. A second synchronisation right after it emits nothing, and incremental evaluation continues correctly afterwards.",
 ["histories","programs","fault_sequences"],"all pipelines, histories and target divergences (lost, corrupted or extra target objects)",
 "Unit tests sync a few fixed states; the property ranges over every divergence and every pipeline, including unwinding and gathering ones, and over interleavings with incremental evaluation.",
 ["pkg/pipeline/pipeline.go","pkg/dbsp/graph_converter.go","pkg/dbsp/executor.go"],
 [("snapshot graph conversion","pkg/dbsp/graph_converter.go"),("Sync: required minus current","pkg/pipeline/pipeline.go Sync")],["return value of Sync"])

prop("C03","Emitted change stream is minimal and safely applicable",
 "Every batch of target changes produced for one source event names each target object at most once, lists all deletions before any upsert, deletes only objects that currently exist in the target collection, upserts only objects whose content actually changes, and stamps every object with the target's group, version and kind. A source event that does not change the pipeline's result produces no target change.",
 ["histories","programs"],"all pipelines and histories, including objects that are renamed by a projection, move between groups or swap keys within one event",
 "Tests look at the set of resulting objects after a couple of events; a redundant write or a wrong order inside one batch only shows on particular histories and causes event storms or lost objects in a live system.",
 ["pkg/pipeline/zset_adaptor.go","pkg/pipeline/pipeline.go"],
 [("Reconcile merges +/- documents per target key","pkg/pipeline/zset_adaptor.go Reconcile"),("ConvertZSetToDelta orders deletes first","pkg/pipeline/zset_adaptor.go")],["return value of Evaluate"])

prop("C04","A failing, repeated or out-of-place event never corrupts a pipeline",
 "When processing an event fails (an expression error, an invalid result object) the pipeline behaves afterwards as if that event had never been delivered: later events of other objects are processed correctly, and correcting or deleting the offending object brings the target to the from-scratch result. Re-delivering an already processed add, update or upsert, or delivering a delete of an unknown object, changes nothing in the target.",
 ["fault_sequences","histories"],"all failure positions in all histories, duplicate and replayed deliveries (at-least-once delivery with retry)",
 "Controllers retry failed work items and informers redeliver; unit tests stop at the first error and never look at what a failed event left in the operator state.",
 ["pkg/pipeline/pipeline.go","pkg/pipeline/zset_adaptor.go","pkg/controller/reconcilers.go","pkg/dbsp/executor.go"],
 [("caches updated while converting","pkg/pipeline/zset_adaptor.go ConvertDeltaToZSet"),("retry via workqueue","pkg/controller/reconcilers.go")],["Evaluate errors and subsequent deltas"])

prop("C05","Dataflow operators obey the incremental laws; optimisation is transparent",
 "Z-sets form a commutative group under addition whose members are compared by deep document equality, and for every dataflow graph and every sequence of input changes the incremental execution, summed up, equals the non-incremental execution on the summed inputs. Graph rewriting (fusion, reordering, integration/differentiation elimination, incrementalisation) never changes any output of any graph.",
 ["programs","histories","inputs"],"all operator graphs (joins of any arity, selections, projections, unwinds, gathers, distincts), all input multisets including negative weights, optimised versus unoptimised",
 "Tests exercise single operators and a few fixed chains; equivalence of rewriting needs arbitrary graphs and multi-step inputs with weights.",
 ["pkg/dbsp/zset.go","pkg/dbsp/op_linear.go","pkg/dbsp/op_bilinear.go","pkg/dbsp/op_nonlinear.go","pkg/dbsp/op_misc.go","pkg/dbsp/fused_op.go","pkg/dbsp/rewrite_engine.go","pkg/dbsp/graph_converter.go","pkg/dbsp/executor.go"],
 [("rewrite rules","pkg/dbsp/rewrite_engine.go"),("fused operators","pkg/dbsp/fused_op.go")],["Executor.Process outputs"])

prop("C06","Expression operators compute their documented function",
 "Every expression evaluates to the value that the expression reference defines for it, for every subject document, nesting and argument type it accepts, and to an error for arguments it does not accept; evaluation depends only on the expression and its subjects ($ and $$), so evaluating twice gives the same value (time and random operators excepted).",
 ["inputs","programs"],"all operators, nestings, numeric types, missing paths, empty lists, $ versus $$ scoping, JSONPath get and set forms",
 "Tests have one or two examples per operator; short-circuiting, integer/float mixing, empty lists, missing fields and nested local subjects are combinatorial.",
 ["pkg/expression/expression.go","pkg/expression/jsonpath.go","pkg/expression/converter.go","pkg/expression/literal.go","pkg/expression/selector.go"],
 [("evaluator switch","pkg/expression/expression.go Evaluate"),("type conversion","pkg/expression/converter.go")],["Expression.Evaluate result"])

prop("C07","Malformed specifications and hostile data never crash the process",
 "Any byte string given as a pipeline, expression, predicate or operator specification is either accepted or rejected with an error, and any accepted one evaluated on any object returns a value or an error: parsing, building, evaluating, printing and re-serialising never panic and never run forever.",
 ["inputs","programs"],"all JSON values (and non-JSON bytes) as specifications, all JSON objects as data",
 "A single panic in a shared process takes down every operator; tests only use well-formed specifications and matching data.",
 ["pkg/expression/expression.go","pkg/expression/marshaler.go","pkg/api/operator/v1alpha1/pipeline_types.go","pkg/predicate/predicate.go","pkg/pipeline/op.go"],
 [("argument validation","pkg/expression/converter.go"),("unmarshalers","pkg/expression/marshaler.go, pkg/api/operator/v1alpha1/pipeline_types.go")],["panics and errors of the public API"])

prop("C08","Specifications survive serialisation and deep copy unchanged",
 "An expression, pipeline, predicate or operator specification that is serialised and parsed again, or deep-copied any number of times, behaves identically to the original on every input and serialises to the same text from then on.",
 ["programs","inputs"],"all operators and literal values in all positions (operator specs pass through the API server, the scheme's deep copy and the CLI before they run)",
 "Every deployed spec takes several such trips before it runs; tests compare a few round-trips textually.",
 ["pkg/expression/marshaler.go","pkg/api/operator/v1alpha1/pipeline_types.go","pkg/predicate/predicate.go","pkg/predicate/deepcopy.go"],
 [("custom JSON marshalers","pkg/expression/marshaler.go"),("DeepCopyInto via JSON","pkg/expression/marshaler.go")],["behaviour of the copy vs the original"])

prop("C09","Evaluation and reads never alias or modify foreign objects",
 "Evaluating expressions and pipelines never modifies the objects it is given, results never share mutable structure with inputs, literals or internal state, and objects read from, listed in, watched in or handed to event handlers by the view store can be modified by the receiver, as can objects after they were written, without changing what the store or anybody else sees.",
 ["inputs","histories","programs"],"all expressions, pipelines and view-store operations, with callers scribbling over everything they passed in or got back",
 "Aliasing is invisible until a later, unrelated mutation; tests do not scribble on returned objects.",
 ["pkg/expression/jsonpath.go","pkg/dbsp/document.go","pkg/dbsp/fused_op.go","pkg/pipeline/op.go","pkg/cache/view_cache.go","pkg/cache/view_cache_informer.go","pkg/cache/store.go"],
 [("deep copies at boundaries","pkg/dbsp/document.go, pkg/cache/view_cache.go, pkg/cache/store.go")],["inputs after the call; reads after scribbling"])

prop("C10","Concurrent view-store operations are linearizable",
 "Concurrent create, update, patch, status-update, delete, get and list calls on view objects behave as if executed one at a time in an order consistent with real time: a read returns the latest completed write, concurrent patches of different fields are all kept, deleting or updating an object that does not exist reports not-found, and a list is filtered exactly by its namespace and selectors.",
 ["schedules","histories"],"all interleavings of concurrent clients over shared and different objects, kinds and namespaces",
 "Tests are sequential, one operation at a time on one object.",
 ["pkg/cache/view_cache.go","pkg/cache/view_client.go","pkg/cache/delegating_view_cache.go"],
 [("indexer per kind under a mutex","pkg/cache/view_cache.go"),("client CRUD","pkg/cache/view_client.go")],["client calls and replies"])

prop("C11","Every watcher and informer converges to the store content",
 "A watcher or informer handler, no matter when it was registered relative to concurrent writes, that replays the events it receives ends up with exactly the stored objects matching its kind, namespace and selectors once writes stop; it sees each object's lifecycle in order (added, then modifications, then deleted), never misses or duplicates a change, is told deleted when an object leaves its selection, and receives nothing after it was stopped or removed.",
 ["schedules","histories"],"all registration times, writers, selectors and numbers of watchers; bursts larger than any internal buffer with a consumer that keeps reading",
 "Tests register first, write one object and wait; races between initial list, live events and concurrent writers, and selector transitions are not exercised.",
 ["pkg/cache/view_cache.go","pkg/cache/view_cache_informer.go"],
 [("informer event fan-out","pkg/cache/view_cache_informer.go TriggerEvent, AddEventHandler"),("watcher","pkg/cache/view_cache.go Watch")],["events delivered to handlers and watch channels"])

prop("C12","Operators sharing the view store see one store and every change",
 "All caches and clients attached to the same shared view store observe the same objects: a write through any of them is immediately readable through all others and is delivered exactly once to every informer handler of every attached cache, whatever the order in which caches, informers and kinds were set up; stopping one cache or removing its informers does not disturb the others.",
 ["schedules","histories","configurations"],"any number of attached caches, any set-up order, any interleaving of writes, registrations and removals",
 "Tests attach one delegating cache and check one event.",
 ["pkg/cache/delegating_view_cache.go","pkg/cache/view_cache.go","pkg/manager/manager.go"],
 [("delegating informers registered with the shared storage","pkg/cache/delegating_view_cache.go")],["reads and handler events per attached cache"])

prop("C13","Source filters pass exactly the matching events",
 "A source delivers an event to its controller exactly when the event satisfies all of its namespace, label selector and predicate filters, where basic predicates compare old and new object state as documented (creations and deletions satisfy every basic predicate, an update those whose named metadata differ), selector and namespace are tested on the current object, and And/Or/Not combine them by Boolean logic at any nesting depth.",
 ["inputs","configurations"],"all predicate trees, selectors and namespaces, all create/update/delete events",
 "Tests check single predicates on one event; nesting, combination of the three filters and delete/update asymmetries are combinatorial.",
 ["pkg/reconciler/source.go","pkg/predicate/predicate.go"],
 [("predicate conversion","pkg/predicate/predicate.go"),("filters assembled for a watch","pkg/reconciler/source.go")],["predicate decisions; requests reaching a reconciler"])

prop("C14","Updater targets end up exactly as computed",
 "Writing a change through an Updater target leaves the target object with exactly the computed content except that labels and annotations are merged into existing ones and system-managed metadata is kept, creates it if missing, removes it on deletion, writes status also where status is a separate subresource, is idempotent, and touches no other object.",
 ["inputs","histories","schedules"],"all object contents, all prior target states, view and native targets, conflicts with concurrent writers",
 "Tests create one object and change one field; removals of nested fields, status, and conflicting writers are not covered.",
 ["pkg/reconciler/target.go","pkg/reconciler/ctrlutils.go"],
 [("CreateOrUpdate replacing everything but metadata","pkg/reconciler/ctrlutils.go, target.go")],["target objects after Write"])

prop("C15","Patcher targets change exactly the computed fields",
 "Writing an upsert through a Patcher target sets exactly the computed fields and leaves every other field of the existing object untouched; a deletion removes exactly the fields the patch had set and nothing else, and never removes the object itself; concurrent changes of other fields are kept; lists are patched item by item at the same position; repeating a write changes nothing further (removals of list items excepted); patching a missing object is an error.",
 ["inputs","histories"],"all patch shapes (nested maps, lists, status, labels, annotations) against all prior object states",
 "Tests patch one or two scalar fields.",
 ["pkg/reconciler/target.go","pkg/object/patch.go"],
 [("merge patch and inverse merge patch","pkg/reconciler/target.go")],["target objects after Write"])

prop("C16","A running operator's views converge to the pipeline result",
 "In a running operator, once source objects stop changing, every target holds exactly the result of its pipeline over the current source objects, for every history of source changes, including chains of controllers where one controller's target is another's source, several sources and several operators sharing the process, for views and for native Kubernetes resources alike, and even if writes to the API server temporarily fail, conflict, take effect but report an error, or watches break; source objects that exist before the operator starts are picked up as well. Target objects left behind by an earlier incarnation of the operator are not covered.",
 ["schedules","histories","programs"],"all controller graphs, write histories and schedules; quiescence of the workload is assumed before comparing",
 "Integration tests follow single objects through one fixed operator; overlapping updates, deletes racing adds and multi-hop chains are not sampled.",
 ["pkg/controller/declarative.go","pkg/controller/reconcilers.go","pkg/reconciler/source.go","pkg/reconciler/reconciler.go","pkg/operator/operator.go","pkg/pipeline/pipeline.go"],
 [("watch sources, work queue, pipeline, target writes","pkg/controller/reconcilers.go")],["view store content at quiescence"])

prop("C17","One-shot and periodic sources fire as specified",
 "A one-shot source triggers its controller exactly once per controller start, with a single empty object, no matter what else happens (in particular to other objects of the trigger view), and a periodic source keeps triggering at its period for as long as the controller runs, each trigger restoring the targets to the pipeline's result over the current sources even if target objects or the fields set by a patch were deleted or modified behind the controller's back. Objects, labels and annotations that others add are left alone.",
 ["schedules","fault_sequences","configurations"],"all source mixes, periods and target tampering",
 "Tests start one controller and count one or two triggers.",
 ["pkg/reconciler/source.go","pkg/controller/reconcilers.go"],
 [("one-shot view object","pkg/reconciler/source.go"),("periodic ticker source","pkg/reconciler/source.go"),("state-of-the-world reconciler","pkg/controller/reconcilers.go")],["triggers and targets"])

prop("C18","Controller status reports errors faithfully",
 "The status of a controller tells what happened: a controller that never failed is ready without errors, one whose processing fails is reported as failing with the actual errors, the most recent 10 being retained in order, and an invalid controller (including one with an invalid source) is reported as not ready, processes nothing and does not affect its siblings; a source that cannot be watched is reported too. Neither an error storm nor an unread, full or closed error channel ever blocks or crashes processing.",
 ["fault_sequences","schedules","histories"],"all sequences of failures and successes, concurrent failing reconciliations and status reads",
 "Tests push a couple of errors sequentially.",
 ["pkg/controller/status_reporter.go","pkg/controller/declarative.go","pkg/controller/reconcilers.go","pkg/operator/operator.go"],
 [("bounded error stack with rate limited channel","pkg/controller/status_reporter.go")],["GetStatus, error channel"])

prop("C19","Operators can be added, updated and removed without side effects",
 "Adding, updating or deleting an operator at any time takes effect completely (an updated operator runs only its new specification, a deleted one stops processing), never disturbs other operators, never crashes on invalid or repeated requests, and the kinds advertised and served by the API server are at every quiescent point exactly the view kinds, in the operator's own API group, of the operators that currently exist.",
 ["histories","schedules","inputs"],"all sequences and interleavings of operator additions, updates, deletions, valid and invalid, before and after start",
 "Integration tests add and delete one operator.",
 ["pkg/kubernetes/controllers/operator.go","pkg/operator/operator.go","pkg/apiserver/registry.go"],
 [("upsert is delete plus add","pkg/kubernetes/controllers/operator.go"),("API group registration","pkg/apiserver/registry.go")],["operators' views, API discovery"])

prop("C20","Concurrent use of the control plane is free of data races",
 "No interleaving of concurrent view-store operations, watch registrations and removals, reconciliations, status reads, operator changes and API requests performs an unsynchronised conflicting memory access, deadlocks, or sends on a closed channel.",
 ["schedules"],"all interleavings of the public operations that production components call concurrently",
 "The test-suite runs without the race detector and mostly single-threaded.",
 ["pkg/cache/view_cache.go","pkg/cache/view_cache_informer.go","pkg/cache/delegating_view_cache.go","pkg/controller/status_reporter.go","pkg/kubernetes/controllers/operator.go","pkg/apiserver/registry.go","pkg/apiserver/openapi.go"],
 [("mutexes in the caches, operator controller and API server","pkg/cache, pkg/kubernetes/controllers, pkg/apiserver")],["race detector reports, crashes, progress of the workload"])

prop("C21","The REST API is a faithful window onto the view store",
 "Every REST request for a view resource returns or changes exactly the view-store content it names: reads return what is stored, writes are visible to operators and other clients at once, get/update/delete of a missing object is a 404, creating stores exactly the object sent (replacing an existing one), requests with a wrong name, kind or precondition and dry runs change nothing, patches (server-side apply included) follow their patch type, lists and collection deletions honour namespace and label selectors, watches stream the changes, concurrent updates and patches lose nothing, and unknown or native resources are not served.",
 ["histories","inputs"],"all verbs, patch types, selectors, namespaces and histories, mixing REST clients with direct store clients",
 "Tests do a handful of calls on fixed objects.",
 ["pkg/apiserver/storage.go","pkg/apiserver/resource_handler.go","pkg/apiserver/registry.go","pkg/apiserver/codec.go"],
 [("client delegated storage","pkg/apiserver/storage.go"),("dynamic resource routing","pkg/apiserver/resource_handler.go")],["HTTP responses versus store content"])

prop("C22","Only valid tokens authenticate, and as exactly their claims",
 "A request is authenticated if and only if it carries a bearer token signed with the server's private key using an RSA signature algorithm and within its validity period; the resulting user carries exactly the user name, namespace list and rules of the token, and any token with altered header, claims or signature, made with another key or another algorithm, expired or not yet valid is rejected as unauthenticated.",
 ["inputs"],"all tokens: valid, mutated in header, payload or signature, algorithm confusion, foreign keys, time windows, malformed headers",
 "Tests try a few tokens; forging is adversarial.",
 ["pkg/auth/authenticator.go","pkg/auth/token.go","pkg/apiserver/builder.go"],
 [("JWT parsing and method check","pkg/auth/authenticator.go")],["authentication decisions and user info; HTTP status"])

prop("C23","Authorization grants exactly what the credentials allow",
 "For every user and request the authorization decision is allow exactly when the request's namespace is among the user's namespaces (requests spanning all namespaces need the wildcard, no namespace list means no restriction) and some rule matches verb, API group, resource and, for named verbs, resource name with the documented wildcards (no rules means full access); over HTTP a denied request has no effect and reveals no object.",
 ["inputs","configurations"],"all rule sets, namespaces, verbs, groups, resources and names",
 "Tests check a few dozen fixed tuples of a combinatorial space; security-critical.",
 ["pkg/auth/authorizer.go","pkg/auth/rbac.go","pkg/apiserver/builder.go"],
 [("namespace check then rule matching","pkg/auth/authorizer.go, rbac.go"),("filter chain","pkg/apiserver/builder.go")],["authorizer decisions; HTTP responses"])

prop("C24","Generated credentials carry exactly the requested authority",
 "Keys and user configurations generated by the admin CLI work together: the private key file is readable by its owner only, the generated configuration authenticates against a server using the generated certificate and confers exactly the requested user, namespaces, rules and resource names (never more than asked for), what the CLI prints about a configuration is what it contains, and a server started by the CLI serves where and how told (HTTP or HTTPS, with its certificate) and enforces these credentials unless told not to.",
 ["inputs","configurations"],"all combinations of command line options",
 "The CLI has no tests.",
 ["main.go","pkg/auth/token.go","pkg/auth/kubeconfig.go"],
 [("generate-keys, generate-config, get-config","main.go"),("kubeconfig generation","pkg/auth/kubeconfig.go")],["files written, tokens inside, CLI output"])

prop("C25","Names, kinds and resources of views map consistently",
 "Every registered view kind, and no other, appears exactly once in discovery; kind, list kind and resource name convert into each other consistently everywhere (discovery, REST mapping, API server, caches), view groups are told apart from native groups everywhere the same way, and source and target references resolve to the documented group, version and kind.",
 ["inputs","configurations","histories"],"all operator names, kinds, groups and versions, all registration and removal sequences",
 "Tests use one or two names.",
 ["pkg/cache/view_discovery.go","pkg/cache/view_restmapper.go","pkg/cache/restmapper.go","pkg/cache/discovery.go","pkg/api/view/v1alpha1/group_version.go","pkg/reconciler/resource.go"],
 [("view naming rules","pkg/api/view/v1alpha1/group_version.go"),("discovery tables","pkg/cache/view_discovery.go")],["lookup results"])

prop("C26","Secret payloads are decoded exactly once and never leak back",
 "Pipelines see the payload of a Secret decoded exactly once, no matter how often the event is retried or redelivered, the stored Secret object itself is never altered by being observed, and objects of any other kind pass through unchanged.",
 ["inputs","fault_sequences"],"all secret contents including payloads that are themselves base64 text, retries after failures, Updater and Patcher targets",
 "Tests decode one fixed secret once.",
 ["pkg/object/secret.go","pkg/controller/reconcilers.go","pkg/reconciler/target.go"],
 [("DecodeSecretData before evaluation","pkg/controller/reconcilers.go")],["pipeline input and target objects"])

prop("C27","Operator diagrams show exactly the data flow",
 "The diagram of an operator, in every format and however obtained, shows each controller once with its pipeline stages, each resource that a controller reads or writes once, and exactly one kind of arrow for each: from every source to its controller and from every controller to its target, labelled with the source or target type. No data flow is missing (several controllers may write the same view, views may be written or read by nobody in the operator) and none is invented; drawing is deterministic, never fails on a valid specification and never modifies it.",
 ["inputs"],"all operator specifications with uniquely named controllers",
 "There are no tests of the diagrams.",
 ["pkg/visualize/visualize.go","pkg/visualize/dot.go","pkg/visualize/mermaid.go","main.go"],
 [("connections between controllers","pkg/visualize/visualize.go"),("visualize command","main.go")],["generated diagrams"])

with open("/verif/properties.jsonl","w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
