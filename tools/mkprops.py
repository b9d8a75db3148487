#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the file stays well-formed)."""
import json, os
CD='cache_dependencies/'; DJ='django_cache_dependencies/'
P=[]
def prop(id,title,statement,over,text,why,files,state,mech,observe,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,
      state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
      mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))

prop('C01','An invalidated record is never served again',
 'Once an invalidation of a tag has returned, no read (single, bulk or get-or-compute, from any thread) returns a record that carries that tag in the same cache version and whose save had returned before the invalidation was called. '
 'This holds for any tag names and numbers of tags, for any number of save/invalidate rounds even within one clock tick, and for every interleaving of the cache operations of concurrent threads.',
 ['histories','inputs','schedules'],'all histories of save/read/invalidate over any keys, tags, versions, threads; all interleavings of backend operations',
 'Tests invalidate one or two hand-picked ASCII tags once, sequentially, and read back.',
 [CD+'cache.py',CD+'dependencies.py',CD+'utils.py',CD+'tagging.py'],
 [('tag version','random id stored per tag and cache version; a record stores the ids it was built against','TagsDependency.tag_versions / backend key tag_*')],
 [('version comparison on read','TagsDependency.validate'),('deletion of the tag version','TagsDependency.invalidate'),('fresh id creation','utils.generate_tag_version')],
 ['cache.get','cache.get_many','cache.get_or_set_callback','cache.invalidate_tags'])

prop('C02','A record stays readable, unaltered, until something justifies its loss',
 'A saved record is returned by every later read, from every thread, with exactly the value that was saved (falsy, None, dictionaries and records saved through the native interface included) until it is overwritten, deleted, its own timeout has elapsed, one of the tags it carries has been invalidated in its version, or a day has passed since the version of one of its tags came into being (at the first save with the tag after its last invalidation). '
 'After its timeout has elapsed it is not served any more, and a read that finds nothing returns the default the caller gave.',
 ['histories','inputs'],'all histories and all values, timeouts, defaults and tag sets',
 'Tests read back string values a handful of times; no test combines unrelated invalidations, timeouts, defaults and unusual values.',
 [CD+'cache.py',CD+'dependencies.py',CD+'tagging.py'],
 [('packed record','value plus the dependency it was saved with','CacheWrapper._pack_data')],
 [('packing','CacheWrapper._pack_data/_unpack_data'),('creation of missing tag versions only','TagsDependency.evaluate'),('tag lifetime longer than records','TagsDependency.TAG_TIMEOUT')],
 ['cache.get','cache.get_many','cache.set'])

prop('C03','Cache versions and cache aliases are independent namespaces',
 'Saving, reading, invalidating, locking, inheriting tags and finishing a transaction under one cache version (any version number, including 0) or through one cache alias has no effect on records and tags of another version or another alias. '
 'Within one version the default (no version given) behaves like any other version. (A build is identified by its key alone, so a miss of the key in any version opens it; what it collects is kept apart by version.)',
 ['histories','configurations'],'all histories mixing several versions and aliases',
 'Tests use one alias and, apart from two assertions on a stub, one version.',
 [CD+'cache.py',CD+'dependencies.py',CD+'transaction.py',CD+'relations.py',DJ+'__init__.py'],
 [('per-version dependency maps','what a node or transaction collected, by version','CacheNode._dependencies, Transaction._dependencies')],
 [('version passed through to every backend call','CacheWrapper, TagsDependency, DependencyLock'),('one wrapper per alias and thread','CacheCollection.__call__')],
 ['cache.get(version=)','cache.set(version=)','cache.invalidate_tags(version=)','caches[alias]'])

prop('C04','A composite record is invalidated by the tags of its descendants',
 'If, between the miss of a record and its save, the same thread reads (hit, single or bulk) or saves other records, then the saved record carries their tags too, through any nesting depth: invalidating any tag of any descendant makes the descendant and all its ancestors unreadable. '
 'This holds no matter whether the descendant was rebuilt or came from the cache, and also for tags the descendant inherited itself. '
 '(Builds are opened by the misses of single reads and of get-or-compute; the misses of a bulk read open sibling builds inside the enclosing one, without becoming the innermost. Reading the very key that is being built is outside.)',
 ['histories','programs'],'all well-nested build programs of any depth and width, with every pattern of hits and misses',
 'One test nests two records.',
 [CD+'relations.py',CD+'cache.py',CD+'dependencies.py'],
 [('current node','record being built by this thread','RelationManager._current'),('collected tags','CacheNode._dependencies','relations.py')],
 [('propagation to all parents','CacheNode.add_dependency'),('merge on save','CacheWrapper.set'),('merge on hit','CacheWrapper.get/get_many -> finish')],
 ['cache.get','cache.get_many','cache.set','cache.invalidate_tags'])

prop('C05','Tags flow only from descendants to the records being built around them',
 'A record never carries tags other than the ones it was saved with and those of records read or saved by the same thread while it was being built: not those of its ancestors, of siblings, of records handled before its miss or after its save, or of other threads. '
 'Saving or hitting a record restores the enclosing record as the one being built.',
 ['histories','programs'],'all well-nested build programs and thread mixes',
 'No test checks the absence of a tag on any record.',
 [CD+'relations.py',CD+'cache.py',CD+'dependencies.py'],
 [('node tree','open builds of the thread','RelationManager._data')],
 [('restoring the parent','RelationManager.pop'),('copy on merge','CompositeDependency.extend/__copy__')],
 ['cache.get','cache.get_many','cache.set','cache.invalidate_tags'])

prop('C06','Inheritance can be switched off per call, per build and per cache',
 'A read with abort=True, a build given up with abort(), and every build while the cache object has ignore_descendants switched on contribute nothing to, and change nothing in, the tree of enclosing builds: records being built around them do not receive tags they would not otherwise have received, and enclosing builds continue normally. '
 'Switching ignore_descendants off again restores inheritance. (A save made while it is switched on still hands its tags to the builds which were opened before.)',
 ['histories','programs'],'all programs mixing normal, aborted and inheritance-free builds',
 'One call with abort=True occurs in a test, without assertions about inheritance; ignore_descendants and abort() have no test.',
 [CD+'cache.py',CD+'relations.py',CD+'tagging.py'],
 [('ignore_descendants','switch on the cache object','CacheWrapper.ignore_descendants')],
 [('skipping begin','CacheWrapper.get/get_many'),('dropping the node','CacheWrapper.abort')],
 ['cache.get(abort=True)','cache.abort','cache.ignore_descendants'])

prop('C07','Bulk reads equal single reads',
 'Reading many keys at once returns exactly the keys, with the values, that reading each of them alone at that moment would return: one invalid, missing or expired record never hides or resurrects another. '
 'It has the same effect on the record being built around it, and accepts any iterable of keys.',
 ['inputs','histories'],'all key sets over all cache contents',
 'One test reads two keys in bulk.',
 [CD+'cache.py',CD+'dependencies.py',CD+'defer.py',CD+'exceptions.py'],
 [('deferred chain','validation callbacks of all records','CompositeDependency.validate')],
 [('per-record error attribution','CacheWrapper.get_many'),('aggregated validation','GetManyDeferredIterator')],
 ['cache.get_many','cache.get'])

prop('C08','Finishing a transaction invalidates its tags again',
 'When the outermost transaction finishes, by commit or rollback alike, every tag invalidated inside it is invalidated once more, in the version it was invalidated in: no record carrying such a tag whose save had returned before the finish was called - by the transaction itself or by anyone else - is readable afterwards. '
 'This holds at isolation levels READ COMMITTED, REPEATABLE READ and SERIALIZABLE, for every interleaving.',
 ['histories','schedules','configurations'],'all transaction histories of several threads, all isolation levels from READ COMMITTED up, all interleavings of backend operations',
 'Two tests do this in one thread at one level.',
 [CD+'transaction.py',CD+'locks.py',CD+'dependencies.py'],
 [('collected dependencies','tags invalidated in the transaction, by version','Transaction._dependencies')],
 [('release on finish','Transaction.finish, DependencyLock.release')],
 ['cache.transaction.finish','cache.invalidate_tags','cache.get'])

prop('C09','Nested transactions act as one until the outermost finishes',
 'Transactions nest to any depth (that the stack of the interpreter allows): finishing an inner one neither releases locks nor re-invalidates tags, its tags are treated at the end of the outermost one, and the number of begins and finishes must match for the outermost to end. '
 'Flushing ends all levels at once, a finish or flush without an open transaction does nothing, and a later begin starts an independent transaction.',
 ['histories'],'all sequences of begin/finish/flush/invalidate of any depth',
 'Unit tests drive two levels with mocks.',
 [CD+'transaction.py'],
 [('current transaction','stack of the thread','TransactionManager._current')],
 [('delegation to the parent','SavePoint'),('stack discipline','TransactionManager.begin/finish/flush')],
 ['cache.transaction.begin/finish/flush','cache.get'])

prop('C10','No other session can cache under a tag locked by an open transaction',
 'At REPEATABLE READ and SERIALIZABLE, from the moment a transaction invalidates a tag until it finishes (within the lock retention time of 5 seconds), a save by any other session of a record carrying that tag, own or inherited, stores nothing and leaves an earlier record under that key as it was. '
 'The session that owns the transaction can save and read such records, and saves that carry no locked tag are not affected. '
 'A session is one thread of one process: a thread is never taken for an earlier, finished one, nor a forked process for its parent or siblings.',
 ['histories','schedules','configurations'],'all histories and interleavings of several sessions with transactions, nested ones included',
 'Tests exercise the lock on the dependency class with mocked transactions; no test has a second session.',
 [CD+'dependencies.py',CD+'locks.py',CD+'transaction.py',CD+'cache.py'],
 [('acquired state','session and start time of the last transaction that invalidated the tag','AcquiredTagState')],
 [('acquire on invalidation','Transaction.add_dependency'),('lock check on save','TagsDependency.evaluate')],
 ['cache.set','cache.get','cache.transaction'])

prop('C11','Transactions that overlap a finished invalidation cannot cache its tags',
 'At REPEATABLE READ and SERIALIZABLE, after a transaction that invalidated a tag has finished, a transaction of another session that began no later than that finish plus the configured delay cannot save a record carrying the tag (while the released lock is retained: 5 seconds plus the delay, at least 6). '
 'A transaction, or a save outside transactions, that begins later than finish plus delay is not blocked by it. (Of a single invalidating transaction which lasted longer than zero clock readings; the lock of a second, still open writer of the tag goes on blocking.)',
 ['histories','configurations'],'all histories of overlapping transactions, all delays, all clock readings including equal ones',
 'Tests use mocked transactions with three fixed start times.',
 [CD+'dependencies.py',CD+'locks.py',CD+'transaction.py'],
 [('released state','session, end time and delay of the last finished transaction','ReleasedTagState')],
 [('overlap test','ReleasedTagState.is_locked'),('precedence of acquired over released','TagsDependency._get_locked_tags_callback, ReleasedTagState.is_released')],
 ['cache.set','cache.get','cache.transaction'])

prop('C12','Repeatable-read caching never outlives a concurrent data change',
 'At REPEATABLE READ and SERIALIZABLE, if every writer changes data and invalidates its tag inside a cache transaction around its database transaction, and every reader computes its record from the snapshot of its own such transaction, then once all of them have finished no readable record was computed from data older than the last commit. '
 'This holds for every interleaving of the individual cache, clock and database steps as long as locks are retained.',
 ['schedules'],'all interleavings, at the granularity of single backend operations, of reader and writer transactions',
 'No test runs two sessions concurrently; a race of a few instructions cannot be hit by a unit test.',
 [CD+'dependencies.py',CD+'locks.py',CD+'transaction.py',CD+'cache.py'],
 [('tag version / acquired / released','the three backend entries per tag','dependencies.py')],
 [('lock check and version creation order','TagsDependency.evaluate'),('acquire before delete','CacheWrapper.invalidate_dependency'),('release before delete','RepeatableReadDependencyLock.release')],
 ['cache.set','cache.get','cache.transaction'])

prop('C13','Locks are temporary and a blocked save is harmless',
 'A transaction that never finishes stops blocking other sessions once the lock retention time has passed, and a session is never blocked by its own transactions. '
 'A save that is blocked raises nothing, returns control to the caller (get-or-compute still returns the computed value), ends the build of that record as usual and passes its tags to enclosing builds.',
 ['histories','crash_points'],'all histories with sessions abandoned at any point',
 'No test abandons a transaction or performs a blocked save through the public interface.',
 [CD+'dependencies.py',CD+'cache.py',CD+'relations.py'],
 [('lock entry lifetime','TAG_STATE_TIMEOUT','TagsDependency')],
 [('timeout of lock entries','TagsDependency.acquire/release'),('swallowing the lock error','CacheWrapper.set')],
 ['cache.set','cache.get','cache.get_or_set_callback'])

prop('C14','Delayed invalidation catches records built from a lagging replica',
 'With a configured delay, at READ UNCOMMITTED and READ COMMITTED, every tag invalidated in a transaction is invalidated once more when the delay has elapsed after the outermost transaction finished, so that no record carrying it and saved before that moment stays readable; without a delay nothing happens after the finish. '
 'At these levels an open or finished transaction never prevents any session from saving (only aliases at the upper levels leave locks, also for those which share their backend); an unknown level is rejected, and READ COMMITTED is the default.',
 ['histories','configurations'],'all histories, levels and delays',
 'Tests check one mocked call after a real sleep.',
 [CD+'locks.py',DJ+'__init__.py'],
 [('timer','pending second invalidation','ReadUncommittedDependencyLock._release_dependency_delayed')],
 [('timer start on release','ReadUncommittedDependencyLock.release'),('level selection','DependencyLock.make, CacheCollection.__call__')],
 ['cache.get','settings.CACHE_TAGGING'])

prop('C15','Threads do not see each other\'s transactions and builds',
 'Each thread gets its own cache object per alias, always the same one within the thread, and transactions, open builds and switches of one thread never affect what another thread saves, inherits or finishes. '
 'Using a cache object\'s transaction or build tracking from a thread other than its own raises an error and changes nothing.',
 ['schedules','histories'],'all assignments of operations to threads',
 'All tests run in one thread.',
 [DJ+'__init__.py',CD+'mixins.py',CD+'relations.py',CD+'transaction.py'],
 [('thread-local registry','caches of the thread','CacheCollection.ctx')],
 [('owner check','ThreadSafeDecoratorMixIn'),('thread-local storage','CacheCollection')],
 ['caches[alias]','cache.transaction','cache.get/set'])

prop('C16','The end of a request leaves nothing behind',
 'When a request ends (or a cache object is closed) in any state - open nested transactions, unfinished builds at any depth - every open transaction is finished as if by its own finish and every unfinished build is dropped, on all aliases used by the thread. '
 'What happens afterwards in that thread is independent of it: later records inherit nothing and later invalidations are not part of an old transaction; saved records stay.',
 ['histories','crash_points'],'all histories with the request ending at any point',
 'No test ends a request with anything open.',
 [CD+'cache.py',DJ+'__init__.py',CD+'transaction.py',CD+'relations.py'],
 [('transaction stack and node tree','per-thread state','TransactionManager, RelationManager')],
 [('close','CacheWrapper.close'),('request_finished handler','close_caches')],
 ['request_finished signal','cache.close'])

prop('C17','Transaction wrappers always finish exactly what they began',
 'The transaction object used as context manager or decorator, the deprecated helpers and the transaction middleware begin a transaction before and finish it after the wrapped code, whether it returns or raises; results and exceptions pass through unchanged and transactions opened around the wrapper stay open (those that flush, as documented, end all). '
 'Wrapped functions keep working when called repeatedly, recursively or nested.',
 ['programs','fault_sequences'],'all nestings of wrappers with exceptions raised at any point',
 'Tests use each wrapper once, without exceptions.',
 [CD+'transaction.py',DJ+'decorators.py',DJ+'middleware.py',CD+'tagging.py'],
 [('transaction depth','depth of the stack','TransactionManager')],
 [('context manager protocol','AbstractTransactionManager'),('middleware hooks','TransactionMiddleware')],
 ['with cache.transaction','@cache.transaction','cache_transaction_all','TransactionMiddleware'])

prop('C18','Equivalent ways of expressing a call have equal effects',
 'Tags given as list, tuple, set, frozenset, dependency object or separate arguments, records saved with the native signature (key, value, timeout, version), get-or-compute versus get plus save, composite dependencies versus the union of their tags, the default-cache proxy, and the deprecated module and method names have the same effect as the plain call with the same tags. '
 'Get-or-compute calls the function exactly once per miss, with the given arguments, and never on a hit.',
 ['inputs','histories'],'all argument forms of every call, in all histories',
 'Tests use one form of each call.',
 [CD+'tagging.py',CD+'cache.py',CD+'dependencies.py',DJ+'__init__.py','cache_tagging/__init__.py'],
 [],
 [('argument normalisation','CacheTagging.set/invalidate_tags, TagsDependency.__init__'),('merging','CompositeDependency.extend, TagsDependency.extend')],
 ['cache.set','cache.invalidate_tags','cache.get_or_set_callback'])

prop('C19','Losing backend entries can only cause misses',
 'If the cache backend drops any of its entries at any moment (eviction, restart, clear) - records, tag entries - the only effect is that records are not found: no record that was invalidated before or after the loss becomes readable again, no call fails, and newly saved records work normally.',
 ['fault_sequences','histories'],'all histories with the loss of any subset of backend entries at any point',
 'No test loses anything but the whole cache between tests.',
 [CD+'dependencies.py',CD+'cache.py',CD+'utils.py'],
 [('tag version','absence means invalid','TagsDependency.validate')],
 [('unique tag versions','utils.generate_tag_version'),('missing version is invalid','TagsDependency.validate')],
 ['cache.get','cache.get_many','cache.set'])

prop('C20','Deferred queries deliver each result to its callback, in one round trip',
 'Deferred operations combined in any order and nesting deliver, last added first, to each callback exactly the subset of its own keys that the backend holds and its own arguments, and each callback runs once. '
 'All operations with the same executor and arguments are served by one backend query, so reading n records with any number of tags costs at most two backend reads. (Operations are combined before the reading of any of them begins, and the backend does not fail.)',
 ['programs','inputs'],'all combinations of deferred operations over several executors, and all bulk reads',
 'Two tests combine a fixed list.',
 [CD+'defer.py',CD+'dependencies.py',CD+'cache.py'],
 [('queue and parent chain','pending callbacks','DeferredNode'),('shared state','results per aggregation criterion','State')],
 [('aggregation','GetManyDeferredIterator'),('combination','Deferred.__iadd__')],
 ['Deferred.get','cache.get_many'])

prop('C21','A template fragment is served from cache until one of its tags is invalidated',
 'A cached template fragment is rendered once and then served unchanged under its name until its timeout elapses or a tag is invalidated that was given as argument, in the tags list, added while rendering its body (at any block depth), or belongs to a fragment nested in it at any depth, rendered or cached. '
 'Invalidating any other tag does not re-render it, and siblings and enclosing fragments are unaffected by an inner fragment\'s tags other than by carrying them outwards.',
 ['programs','histories'],'all trees of fragments with tags from every source, all render/invalidate histories',
 'Tests render a single fragment without nesting.',
 [DJ+'templatetags/cache_tagging_tags.py',CD+'relations.py'],
 [('cache_tagging','set of tags of the fragment being rendered','template context')],
 [('sub-context','CacheNode.render'),('add_tags','CacheAddTagsNode.render')],
 ['{% cache_tagging %}','{% cache_add_tags %}'])

prop('C22','Preventing a fragment prevents everything that contains it, and nothing else',
 'If caching is prevented anywhere in the body of a fragment, at any block depth and position, neither that fragment nor any fragment or cached page that contains it is stored in that rendering, while its nested, preceding and following sibling fragments are cached normally. '
 'A later rendering without prevention is cached again. (Prevention written inside a fragment, or in a template used for it; outside of every fragment it has no effect.)',
 ['programs','histories'],'all fragment trees with prevention at any position',
 'One test prevents a single fragment.',
 [DJ+'templatetags/cache_tagging_tags.py',DJ+'utils.py',DJ+'middleware.py'],
 [('cache_tagging_prevent','flag of the fragment being rendered','template context'),('_cache_update_cache','flag of the page','request')],
 [('prevention','cache_tagging_prevent'),('propagation','CacheNode.render, prevent_cache_page')],
 ['{% cache_tagging_prevent %}','cache_page'])

prop('C23','Non-cached blocks are evaluated on every serving, and only authentic ones',
 'Every non-cached block of a cached text is replaced by the output of its code, run on each serving with the data of that serving plus the data pickled into the block, in order, however many blocks there are and however they are laid out or produced by other blocks; all text outside blocks is passed through unchanged. '
 'Text that looks like a block but does not carry the secret is never executed and stays as it is. (A fragment whose blocks are filled in when it is rendered, inside another such fragment, is plain text for the outer one.)',
 ['inputs','programs'],'all texts composed of plain text, authentic, forged, empty, indented and nested blocks',
 'One test renders two blocks.',
 [CD+'nocache.py',DJ+'templatetags/cache_tagging_tags.py'],
 [],
 [('pattern and replacement','NoCache.handle')],
 ['NoCache.handle','{% nocache %}'])

prop('C24','A cached page is served until one of its tags is invalidated',
 'A view decorated with the page cache (or behind the two-part middleware) runs once per URL, method and varied header values, and then is answered from cache until its timeout elapses or a tag from its tags callable or from the request is invalidated. '
 'Only GET and HEAD requests with status 200, not streamed, not prevented and without max-age=0 are stored; other requests always reach the view and never disturb what is stored, and no expiry headers are added.',
 ['histories','inputs'],'all request/invalidate histories over URLs, methods, header values, statuses',
 'Five tests do the same three GET requests of one URL.',
 [DJ+'middleware.py',DJ+'decorators.py',DJ+'utils.py'],
 [('header list record and page record','two cache records per page','learn_cache_key, UpdateCacheMiddleware')],
 [('store','UpdateCacheMiddleware.process_response'),('fetch','FetchFromCacheMiddleware.process_request')],
 ['cache_page','CacheMiddleware','UpdateCacheMiddleware/FetchFromCacheMiddleware'])

prop('C25','Pages carry the tags of everything cached inside them',
 'A cached page (in the same cache alias as the fragments and records inside it), whatever its URL, method or varied headers, is not served any more after the invalidation of a tag of any fragment or record that was read or rendered while the page was produced, no matter whether that fragment was rendered or came from cache and which variants of the page were produced before or after.',
 ['histories'],'all histories of requests for page variants, fragment renderings and invalidations',
 'No test combines a cached page with a cached fragment.',
 [DJ+'middleware.py',DJ+'utils.py',DJ+'templatetags/cache_tagging_tags.py',CD+'relations.py'],
 [('request.cache_tagging','tags of the fragments rendered in the request','request')],
 [('inheritance of descendants','RelationManager'),('tags from the request','UpdateCacheMiddleware.process_response')],
 ['cache_page','{% cache_tagging %}'])

prop('C26','Changing a registered model instance invalidates its tags',
 'Saving (creating or updating) or deleting an instance of a registered model invalidates exactly the tags its handler returns for that instance - handlers taking the instance or the signal arguments, returning one tag or a collection - in the cache alias it was registered for, for every registration of the model; inside a transaction the usual transaction rules apply. '
 'Instances of other models, and models registered in other lists, are not affected.',
 ['histories','inputs'],'all registrations and histories of model operations',
 'One test saves two models.',
 [DJ+'__init__.py'],
 [('registry','registered handlers','CacheRegistry._registry')],
 [('signal handlers','CacheRegistry.register, _clear_cached')],
 ['Model.save','Model.delete','cache.get'])

prop('C27','The file-based backend returns what was stored, whole, or nothing',
 'A value stored with the file-based backend under a key and version is returned by later reads of that key and version, by this or another backend object on the same directory, until its timeout elapses or it is deleted or overwritten; keys and versions do not mix. '
 'A crash or error at any point of a store leaves either the old or the new value readable, never a damaged one. (A timeout of None stands for the default of the backend, as before Django 1.7.)',
 ['crash_points','histories'],'all histories of operations and every crash point inside a store',
 'The backend has no test.',
 [DJ+'backends.py'],
 [('cache file','expiry and value, replaced by rename','FileBasedCache.set')],
 [('write to a temporary file, then rename','FileBasedCache.set')],
 ['FileBasedCache.set/get/delete'])

prop('C28','The generic backend base class derives every operation from get/set/delete',
 'For an adapter that implements get, set, delete and add, the inherited bulk, membership, counter and version operations behave like the corresponding sequence of primitive operations: bulk reads omit missing keys, counters change by exactly the given amount and reject missing keys, version moves keep the value, and every operation respects the version and timeout it is given. A key which is not portable is only warned about. (A counter and a moved version start with the default timeout; moving a version by 0 is outside.)',
 ['histories','inputs'],'all operation histories over keys, versions, deltas',
 'Tests sample each operation once on a stub.',
 [CD+'cache.py'],
 [],[('derived operations','AbstractCache')],
 ['AbstractCache.*'])

open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w').write(''.join(json.dumps(p,ensure_ascii=False)+'\n' for p in P))
