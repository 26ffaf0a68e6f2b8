fixed("C06","@none","@none returned false when no element matched")
fixed("C08","convert floating","floats were rendered with %f / exponent so strings built from numbers differed from their serialized form")
fixed("C08","serialize the @any","@any was serialized without its argument and came back as another expression")
fixed("C08","keep the @list","@list/@dict operators vanished when an expression was serialized")
fixed("C08","integral float","1.0 came back as the integer 1 after serialize/parse")
fixed("C06","accept the empty string","the empty string literal was rejected / evaluated to nil")
fixed("C07","do not panic on a map expression with an empty key","empty key in a map expression panicked")
fixed("C06","a null literal","null literal was an evaluation error")
fixed("C06","never evaluate strings coming","strings starting with $ in the data were evaluated as JSONPath expressions")
fixed("C07","@rnd","@rnd with min>max panicked in math/rand")
fixed("C07","@map returns","@map with too few arguments panicked with index out of range")
fixed("C07","@range","@range of a huge number panicked in makeslice")
fixed("C06","evaluate the keys","dictionary keys evaluated in random map order, so overlapping keys gave random results")
fixed("C07","programmatically created","expressions with nil argument panicked; @float literal was serialised wrongly")
fixed("C06","lists of several lists","[[a],[b]] list expressions lost elements")
fixed("C06","$$ on a null","$$ on a null list element evaluated to the entire object")
fixed("C09","evaluating a JSONPath","JSONPath results shared maps and lists with the evaluated document")
fixed("C09","MergeAny","MergeAny modified its arguments and rejected null values")
fixed("C01","unwind requires","unwinding an object without string name panicked or produced colliding names")
fixed("C04","repeated Added","a redelivered Added or a Deleted carrying another object version left residue in operator state")
fixed("C05","reset the n-ary join","join state survived a reset and same-named inputs were mixed up")
fixed("C04","a failed evaluation","a failing event left its partial effects in source caches and join state")
fixed("C01","choose the representative","the gather representative depended on map iteration order")
fixed("C02","convert unwind","Sync failed on pipelines with unwind or gather")
fixed("C01","track the multiplicity","deleting one of two producers of the same target document deleted the target; Sync emitted wrong differences")
fixed("C18","create the pipeline before","a controller with an invalid pipeline had started its watches, which then crashed on a nil pipeline")
fixed("C16","never lose, reorder","a failed write was retried with a stale event, undoing or losing later changes")
fixed("C05","fused projections","a fused chain with a projection producing no or several documents failed or lost them")
fixed("C06","JSONPath queries with several","multi-match JSONPaths ($..x, $.*) returned a random match; setters through descent looped forever; library panics escaped")
fixed("C08","deep-copied expressions","deep copies of expressions and pipelines shared literals and arguments with the original")
fixed("C10","changes of the view store","concurrent add/update/delete of view objects were check-then-act races: lost updates, wrong results, wrong event types; reused lists kept old items, list option types ignored")
fixed("C11","changes of the view store","events were delivered out of order, dropped (full watch buffer), missed or duplicated around registration, and after removal; handlers shared objects with the store")
fixed("C10","updates and patches through the view","concurrent patches through the view client overwrote each other; status updates lost concurrent changes")
fixed("C12","removing the informers","informers of a removed delegating cache stayed registered and received events")
fixed("C10","the composite client and cache","status writes and native reads through the composite client panicked in headless mode; subresource get/create were routed by the kind of the subresource body")
fixed("C14","report errors from creating","errors creating an Updater target were swallowed when the object did not exist and the status of newly created native targets was never written")
fixed("C15","keep concurrent changes of others","Patcher and Updater targets overwrote concurrent changes of other writers between their read and write")
fixed("C15","remove exactly the fields","a Patcher delete left fields of nested maps, emptied maps of others or failed on type mismatches")
fixed("C10","do not store the nulls","merge patches stored literal nulls in newly created maps instead of dropping them")
fixed("C15","retain list items that differ","a Patcher delete dropped list items that held further fields of others")
fixed("C16","create Updater targets that are missing","an upsert shortly after a delete was silently lost if the informer cache still held the deleted target")
fixed("C17","one-shot sources trigger","a one-shot controller was triggered again by any change in its trigger view, e.g., by another controller with the same trigger")
fixed("C17","periodic reconciliation restores","periodic reconciliation compared only with the pipeline's own bookkeeping so target objects deleted or modified by others were never restored")
fixed("C18","error reporting is safe","the error reporter was unsynchronized, blocked processing on an unread error channel and panicked on a closed one; wrapped errors could not be inspected")
fixed("C18","a controller with an invalid source","a controller with an invalid source kept processing its other sources; an invalid period stopped the entire operator")
fixed("C18","a source that cannot be watched","a source whose kind does not exist stopped the entire operator after two minutes")
fixed("C19","adding, updating and removing","the CRD manager was started twice and Start returned 'manager already started' at random; deleting an operator that was not started panicked; concurrent or repeated additions left operators running forever; a replaced operator kept running along with the new one; sending on the closed error channel panicked; status updates overwrote more recent ones")
fixed("C23","a wildcard in the middle of a rule","a rule pattern such as ab*ba also matched aba, where prefix and suffix overlap")
fixed("C24","the generated private key is readable","generate-keys wrote the private key with mode 0644 (and an existing key file kept its mode)")
fixed("C24","the API server listens on the address","dctl start ignored --addr and --port")
fixed("C24","credentials are not generated with more","--namespaces with an empty list and --resource-names without rules silently generated unrestricted credentials")
fixed("C24","get-config shows tokens without","get-config crashed on tokens without exp, iat or nbf")
fixed("C21","the API server refuses to create objects that have no name","a POST without a name stored an object with an empty name that could not be read or deleted; generateName was ignored")
fixed("C21","updates and patches through the API server do not lose","PUT and PATCH read, modified and wrote back without protection: of two concurrent requests one was lost")
fixed("C21","dry-run requests to the API server","requests with dryRun=All were carried out")
fixed("C21","the API server refuses objects of another kind","PUT and POST of a body of another kind or group stored it under that kind")
fixed("C21","deletions through the API server honour","DELETE ignored the UID precondition and reported success for failures")
fixed("C21","server-side apply through the API server","server-side apply of a missing object was a 404, and apply patches replied 415 or 500")
fixed("C21","the API server reads the options of deletions","the body and query options of DELETE and DELETECOLLECTION (dryRun, preconditions) were not decoded")
fixed("C21","objects are not created under a name other","a PUT that creates, with another name in the body, stored the object under the other name")
fixed("C19","view kinds can be registered while the API server","registering view kinds took the server's write lock while requests were served and deadlocked or raced")
fixed("C21","concurrent server-side applies of a missing object","of two concurrent server-side applies of a missing object one was lost")
fixed("C19","kinds dropped from an API group","an operator update that dropped a kind left the kind served and advertised")
fixed("C19","unregistering some kinds","unregistering one kind of a group removed the entire group")
fixed("C20","the OpenAPI caches are written","OpenAPI caches were written under a read lock: data race of concurrent registrations")
fixed("C20","the API server is never started twice","concurrent calls of Start both started the server")
fixed("C25","API discovery lists all the verbs","deletecollection was missing among the verbs of the view resources in discovery")
fixed("C19","the REST config of the API server","the client configuration of an HTTPS server had scheme http and an unusable address")
fixed("C25","a kind registered several times","a kind registered twice in a group appeared twice in discovery")
fixed("C19","stopped controllers drop their work queue","after an operator was removed its controllers kept processing the whole backlog of their work queues, and, beyond 30 s, even along with the operator's replacement")
fixed("C25","the view client keeps the API group","DeleteAllOf and status reads of views used the last segment of an operator name with dots as the operator, hence another group")
fixed("C25","view groups are told apart from native","groups that merely end in view.dcontroller.io were taken for view groups in some places and for native ones in others")
fixed("C25","native kinds of groups with dots","the group of native kinds was restored wrongly from their views when it contained dots")
fixed("C25","view discovery lists each version","view discovery repeated versions of a group with several kinds and left out deletecollection")
fixed("C25","the REST mapper maps views","the REST mapper found no view (inverted conditions), lost the case of kinds and required a version")
fixed("C26","only native Secrets are decoded","views and custom resources of kind Secret were decoded (a second time)")
fixed("C20","concurrent requests for a group's discovery","concurrent requests for an API group's discovery document raced on the shared document, which could be served without its kind")
fixed("C06","a JSONPath expression with descents selects","a JSONPath expression with a descent after a wildcard selected a match that depended on the iteration order of maps (the library misses some of the matches)")
fixed("C27","operator diagrams show every producer","of several controllers writing the same view only the last one was connected to it, and views read but written by no controller of the operator were missing")
fixed("C27","operator diagrams show the version of core","core resources were shown with their version twice (v1/v1/Pod)")
fixed("C24","serve HTTPS without authentication","a server started with --insecure --disable-authentication (HTTPS without authentication, as in the documented example) had no certificate, so no client could connect")
fixed("C21","print labels in a deterministic order","the labels of an object were shown in random order, and beyond three a random selection of them, in the tabular form of reads")
