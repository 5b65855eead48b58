#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that long texts stay readable).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))

p("C01","Returned trust chains are authentic and anchored",
"Every trust chain a resolver hands out starts with the entity configuration of the requested entity, ends with the entity configuration of one of the requested trust anchors, and links every entity to the next by a subordinate statement that superior really issued about it. Each statement in it carries a valid signature by a key that the next superior's statement attests (the trust anchor's statements by the anchor's pinned keys if keys are pinned, else by its own), has the entity-statement type, and names the right issuer and subject; no chain is returned for an entity that is not connected to a requested anchor. This holds whatever the other parties, the network, the caches and concurrent resolutions do.",
["schedules","inputs","histories","fault_sequences","configurations"],
"All federation topologies, all byzantine peers (forged or foreign keys, swapped issuers and subjects, wrong types, replayed statements), all delivery faults, cache contents and interleavings.",
"The unit tests resolve three or four fixed honest federations on a quiet mock transport with one thread; no test serves a forged, swapped or mistyped statement during resolution, and none mixes it with cached state.",
["trustresolver.go","entitystatement.go","internal/jwx/jws.go","trustanchor.go"],
[("trust tree construction and iss/sub checks","trustresolver.go: trustTree.resolve"),("signature verification from the anchors down","trustresolver.go: trustTree.verifySignatures"),("JWT type check","entitystatement.go: ParseEntityStatement")],
["TrustResolver.ResolveToValidChains","TrustResolver.ResolveToValidChainsWithoutVerifyingMetadata","TrustChain.Messages","MetadataResolver.ResolveResponsePayload"],
[dict(name="trust tree",meaning="statements collected so far and whether their signatures were verified",where="trustresolver.go: trustTree")])

p("C02","No answer rests on an expired or not yet valid statement",
"At the moment a trust chain or resolved metadata is handed out, every statement it was built from is within its validity period (issued-at not in the future, expiry not passed), and the chain's reported expiry is the earliest expiry among its statements. This holds for answers served from a cache as well as for fresh ones, for every cache backend and every clock skew of the peers.",
["histories","fault_sequences","inputs","schedules"],
"All histories of resolutions over time with statements of different lifetimes, skewed peer clocks, stale replies and cached answers.",
"The tests run in milliseconds of real time with day-long lifetimes, so nothing ever expires between two calls and no cached answer is ever close to its end.",
["trustresolver.go","entitystatement.go","trustchain.go","unixtime/unixtime.go","cache/cache.go","cache/redis.go"],
[("time checks while building the tree","trustresolver.go: trustTree.resolve"),("cache lifetimes bounded by the earliest expiry","trustresolver.go: cacheSetTrustTree, cacheSetTrustChains; trustchain.go: cacheSetMetadata")],
["TrustResolver.ResolveToValidChains","TrustChain.ExpiresAt","TrustChain.Metadata"],
[dict(name="tree expiry",meaning="earliest expiry of everything collected",where="trustresolver.go: trustTree.expiresAt")])

p("C03","Constraints set by superiors are enforced on every chain",
"No returned trust chain violates a constraint carried by one of its subordinate statements: the maximum path length below the statement's issuer, the permitted and excluded names of every entity below the issuer, and the allowed entity types of every entity below the issuer. A chain that violates none of them is not dropped because of constraints.",
["inputs","configurations","histories"],
"All topologies with constraints at any level, in any combination, with shared sub-paths and repeated resolutions through warm caches.",
"The tests contain one or two hand written constraint examples on one fixed topology and never resolve the same entity over several paths with different constraints or from cached statements.",
["trustresolver.go"],
[("constraint check per subordinate statement","trustresolver.go: trustTree.checkConstraints"),("name matching","trustresolver.go: matchNamingConstraint")],
["TrustResolver.ResolveToValidChains"])

p("C04","Every valid trust chain is found, exactly once",
"When all parties answer, resolving an entity returns every valid acyclic trust chain from it to the requested anchors (a chain ends at the first requested anchor it reaches) and returns none of them twice, and resolution always terminates, also in federations with cycles, shared intermediates and several anchors. The result does not depend on the scheduling of concurrent resolutions or on what is cached.",
["inputs","schedules","configurations","histories"],
"All finite federation graphs (trees, diamonds, cycles, several anchors, intermediates that are anchors themselves), all interleavings of concurrent resolutions, cold and warm caches.",
"The tests check two or three fixed tree shaped federations; a missed or doubled path in a diamond or a cycle, or one that is only missing when the answer comes from a cache, is outside what they sample.",
["trustresolver.go"],
[("recursive construction with loop prevention","trustresolver.go: trustTree.resolve"),("enumeration of paths","trustresolver.go: trustTree.chains")],
["TrustResolver.ResolveToValidChains","TrustResolver.ResolveToValidChainsWithoutVerifyingMetadata"])

p("C05","Resolved metadata is the leaf's metadata under that chain's policies",
"The metadata resolved for a trust chain is exactly the subject's own metadata with the combined metadata policies of that chain's superiors applied, and a chain whose policies conflict or reject the metadata is never reported as valid. The result is the same whether the statements, the chain or the metadata come from the network or from a cache, and is not influenced by other chains, other subjects or earlier resolutions. A metadata resolver answers with the metadata that belongs to the chain it reports, choosing a shortest valid chain.",
["inputs","histories","schedules","configurations"],
"All policy assignments along all paths (with several chains per subject and shared intermediates), all orders of and overlaps between resolutions, cold, warm and lossy caches.",
"The policy vectors test the operators as pure functions on fresh values; they cannot see one chain's result leaking into another through shared memory or caches, or a cached statement behaving differently from a fresh one.",
["trustchain.go","metadata.go","metadataPolicy.go","policyoperators.go","internal/utils/slices.go","metadata_resolver.go","metadata_generated.go"],
[("combining and applying policies","trustchain.go: TrustChain.Metadata"),("choice of chain","metadata_resolver.go: LocalMetadataResolver"),("cache round trip of statements and metadata","metadata_generated.go, entitystatement.go")],
["TrustChain.Metadata","TrustResolver.ResolveToValidChains","LocalMetadataResolver.ResolveResponsePayload","LocalMetadataResolver.Resolve"])

p("C06","Changes in the federation take effect once old statements expire",
"After the federation changes (keys rotated, a subordinate removed, policies, constraints, metadata or hints changed), every answer given after all statements issued before the change have expired reflects the new state, without restarting the process. No entry in any cache backend, including one that survives a restart, outlives the earliest expiry of the statements it was derived from, and cached listings are used for at most an hour.",
["histories","schedules","fault_sequences","crash_points","configurations"],
"All histories of changes and queries, both cache backends, process restarts that keep or lose the cache, background refreshes in flight.",
"No test changes a federation and asks again later; time never advances, and the shared (redis) backend is not exercised at all.",
["trustresolver.go","trustchain.go","discovery.go","cache/cache.go","cache/redis.go"],
[("lifetimes given to cache entries","trustresolver.go: entityStmtCacheSet, cacheSetTrustTree, cacheSetTrustChains; trustchain.go: cacheSetMetadata; discovery.go: subordinateListingCacheSet"),("storing with a lifetime","cache/cache.go, cache/redis.go: Set")],
["TrustResolver.ResolveToValidChains","TrustChain.Metadata","SimpleEntityCollector.CollectEntities","keys stored in redis"])

p("C07","Failures are not remembered: resolution recovers when the network does",
"After every kind of transient failure (lost or delayed requests, server errors with any body, broken or truncated answers, a crash and restart of a peer or of this process), as soon as the failures stop the next resolution or collection gives the same answer as if they had never happened. An unsuccessful or incomplete answer obtained during failures is never stored and served later.",
["fault_sequences","histories","schedules","crash_points"],
"All sequences of network faults over several resolutions and collections, at any request, with any overlap of concurrent operations, followed by a fault free phase.",
"The mock transport of the tests never fails half way, never returns an error page and is never asked again after a failure.",
["trustresolver.go","discovery.go","internal/http/http.go"],
[("error handling of requests","internal/http/http.go: Get"),("what is cached","trustresolver.go: obtainAndSetEntityStatementOrConfiguration; discovery.go: fetchList")],
["TrustResolver.ResolveToValidChains","SimpleEntityCollector.CollectEntities","GetEntityConfiguration"])

p("C08","Queries with different parameters never answer each other",
"The answer to a resolution depends only on its own parameters (subject, trust anchors, keys pinned for the anchors, requested entity types) and the state of the federation, never on which other resolutions were or are being performed by this process or by others sharing its cache. In particular a resolution with pinned anchor keys never returns a chain accepted under other or no pinned keys, and one restricted to some entity types never alters or receives the result of another restriction.",
["histories","schedules","configurations","inputs"],
"All interleavings and orders of resolutions with different anchors, pinned keys and type restrictions over shared caches.",
"Tests resolve with one parameter set each and flush nothing in between; a mix of parameter sets over one warm cache, let alone concurrently, is not sampled.",
["trustresolver.go","trustchain.go","cache/cache.go"],
[("identity of a resolution in the cache","trustresolver.go: TrustResolver.hash"),("identity of a chain in the cache","trustchain.go: TrustChain.hash"),("type restriction on a decoded copy","trustresolver.go: Resolve")],
["TrustResolver.ResolveToValidChains","TrustChain.Metadata"])

p("C09","A faulty cache never changes an answer",
"With a cache that loses entries, refuses to read or write, stalls, returns errors, or returns entries that cannot be decoded at any point, every resolution, collection and lookup still gives the answer it gives without a cache, and none fails or panics because of the cache. A cache that cannot be reached costs time and requests but not correctness.",
["fault_sequences","histories","schedules"],
"All sequences of cache faults (lost, failed and stalled reads and writes, damaged bytes, connection loss to redis) over all operations and interleavings.",
"The tests use only the built-in memory cache, which never fails.",
["cache/cache.go","cache/redis.go","trustresolver.go","trustchain.go","discovery.go","federation.go"],
[("fallback to the network on cache errors","trustresolver.go: entityStmtCacheGet, ResolveToValidChainsWithoutVerifyingMetadata; discovery.go: subordinateListingCacheGet; federation.go: ResolveOPMetadata")],
["TrustResolver.ResolveToValidChains","TrustChain.Metadata","SimpleEntityCollector.CollectEntities","FederationLeaf.ResolveOPMetadata"])

p("C10","Background refresh keeps statements fresh within its window only",
"A cached statement that is not yet expired is served at once, without waiting for the network; a background refresh is requested if and only if the statement expires within the configured grace period and at least the configured fraction of its lifetime has elapsed. A successful refresh replaces the cached statement for later calls, and a refresh that fails, stalls or returns an unusable answer leaves the cached statement in use until it expires.",
["schedules","histories","fault_sequences","configurations"],
"All statement lifetimes, grace periods and fractions, all times of access, all outcomes and delays of the refresh request.",
"The tests never come near the grace window because no time passes in them, and the refresh runs on a goroutine nobody observes.",
["trustresolver.go"],
[("grace condition and background goroutine","trustresolver.go: getEntityStatementOrConfiguration")],
["GetEntityConfiguration","FetchEntityStatement","requests seen by the peers"],
[dict(name="grace parameters",meaning="ResolverCacheGracePeriod and ResolverCacheLifetimeElapsedGraceFactor",where="trustresolver.go")])

p("C11","Entity collection is complete, duplicate free and terminates",
"When all parties answer, collecting a federation returns exactly the entities reachable from the trust anchor through subordinate listings whose configuration can be obtained, each exactly once, and always terminates, whatever the shape of the federation (cycles, shared subtrees, the anchor listed as its own subordinate) and however its internal tasks are scheduled. If some parties fail, exactly the entities that depend on them may be missing.",
["schedules","inputs","fault_sequences","configurations"],
"All federation graphs including cyclic and wide ones, all interleavings of the collector's worker goroutines, all failures of single parties.",
"The test collects one small fixed tree once under whatever schedule the runtime happens to choose.",
["discovery.go"],
[("parallel traversal with visited set, semaphore and de-duplication","discovery.go: SimpleEntityCollector.collect")],
["SimpleEntityCollector.CollectEntities","SimpleOPCollector.CollectEntities"],
[dict(name="visited set",meaning="authorities already traversed",where="discovery.go: SimpleEntityCollector.visitedEntities")])

p("C12","Collection filters and collected information match the entities",
"A collection restricted by entity type, name, trust marks or verified chains returns exactly the reachable entities that satisfy the restriction (trust marks: valid at that time under the anchor; verified chains: a valid trust chain to the anchor exists). The entity types, display names, descriptions, logos, policy links, keywords, trust chains and trust marks reported for an entity are the ones its own configuration and resolution give, and only requested information is reported.",
["inputs","schedules","histories","configurations"],
"All combinations of restrictions and requested claims over all federations, with marks and chains becoming invalid over time and concurrent collection of the same entities.",
"Existing tests check a single entity type restriction and grant type filters on one fixed federation.",
["discovery.go","metadata.go","trustmark.go"],
[("restrictions and claims","discovery.go: SimpleEntityCollector.collect, setUIInfoField"),("chain filter","discovery.go: EntityCollectionFilterVerifiedChains"),("claim iteration","metadata.go: IterateStringClaim, IterateStringSliceClaim")],
["EntityCollector.CollectEntities"])

p("C13","Concurrent use is free of data races, deadlocks and crashes",
"Any number of goroutines may resolve, collect, verify trust marks, and produce entity configurations and authorization requests at the same time, on shared entities and one shared cache, without data races, deadlocks or crashes. Each such call returns within the sum of the time its own network requests may take.",
["schedules","fault_sequences","histories"],
"All interleavings of concurrent public API calls and the goroutines they start, with any network and cache delays.",
"The tests call the API from one goroutine at a time and are not run under a controlled scheduler or the race detector.",
["discovery.go","trustmark_refresher.go","trustresolver.go","trustmark.go","federation.go","cache/cache.go"],
[("collector worker goroutines","discovery.go: collect"),("background refreshes","trustresolver.go: getEntityStatementOrConfiguration; trustmark_refresher.go: TrustMarkJWT")],
["all exported operations"])

p("C14","A trust mark is accepted exactly when it is valid under the anchor",
"Verification against a trust anchor accepts a trust mark if and only if, at that moment, it is within its validity period, its declared type matches, its issuer is allowed by the anchor for that type, it is signed by a current key of that issuer as established through a valid trust chain to the anchor (or by the anchor itself), and, where the anchor names an owner of the type, it carries a currently valid delegation from that owner to that issuer for that type. Verification with given issuer and owner keys applies the same rules to those keys.",
["inputs","histories","fault_sequences","schedules"],
"All trust marks (genuine, expired, future, forged, with foreign, expired or mismatching delegations), all anchor policies, at all times relative to their validity, with issuers leaving the federation, rotating keys or being unreachable.",
"Tests verify a handful of fixed marks against static anchors at one instant, with the issuer always reachable and honest.",
["trustmark.go"],
[("federation verification","trustmark.go: TrustMark.VerifyFederation, getTrustMarkIssuerJWKS"),("delegation verification","trustmark.go: TrustMark.VerifyExternal, DelegationJWT.VerifyExternal")],
["TrustMarkInfo.VerifyFederation","TrustMarkInfos.VerifiedFederation","TrustMarkInfo.VerifyExternal","DelegationJWT.VerifyFederation"])

p("C15","Trust marks count only for the entity they were issued to",
"Wherever trust marks found in an entity's configuration are reported or used on behalf of that entity (resolve responses, collected entities, trust mark filters), a valid trust mark that was issued to a different subject is not reported and does not satisfy a filter, and every valid mark issued to the entity itself is.",
["inputs","histories","schedules"],
"All placements of genuine marks in the configurations of other entities, in all federations and orders of queries.",
"Tests only put an entity's own marks into its configuration.",
["metadata_resolver.go","discovery.go","trustmark.go"],
[("marks in resolve responses","metadata_resolver.go: LocalMetadataResolver.ResolveResponsePayload"),("marks in collections","discovery.go: collect")],
["LocalMetadataResolver.ResolveResponsePayload","EntityCollector.CollectEntities"])

p("C16","An entity's own configuration never carries dead trust marks",
"An entity that maintains trust marks publishes in every configuration it produces only marks that are its own, of the configured type and not expired, and publishes every configured mark again within about a minute after its issuer is able to deliver it. Marks are renewed before they expire when the issuer answers, and one with less than its minimum lifetime left is only published if it could not be renewed, marks that do not expire are kept, self issued marks are always available, and a failing issuer is asked at most once a minute and never delays or breaks the configuration beyond the request itself.",
["histories","fault_sequences","schedules","configurations"],
"All histories of configuration requests over hours, all issuer outages and answers, static, fetched and self issued marks, concurrent requests.",
"There is no test of trust mark renewal over time; nothing expires and the issuer never fails in the tests.",
["trustmark_refresher.go","federation.go"],
[("renewal with grace period and minimum lifetime","trustmark_refresher.go: TrustMarkJWT, refresh"),("omission of unavailable marks","federation.go: EntityConfigurationPayload")],
["FederationEntity.EntityConfigurationPayload","FederationEntity.EntityConfigurationJWT","EntityConfigurationTrustMarkConfig.TrustMarkJWT","requests seen by the trust mark issuer"])

p("C17","Everything the library issues is valid now and for the stated time",
"Entity configurations, trust marks, trust mark delegations, request objects and client assertions produced at any time are signed with the configured key under the right type, name the right issuer, subject and audience, are issued at the current time and expire after exactly the configured or requested lifetime (not at all where none is set), and carry a fresh identifier where one is required. The library's own verification accepts them until they expire and rejects them afterwards.",
["histories","configurations","inputs","schedules"],
"All configured and requested lifetimes, all issuing times, repeated and concurrent issuing from shared producers and shared parameters.",
"Tests issue once with one lifetime and verify immediately.",
["federation.go","trustmark.go","authcode.go","jwtsigning.go","internal/jwx/jws.go"],
[("validity windows","federation.go: EntityConfigurationPayload; trustmark.go: IssueTrustMark, DelegationJWT; authcode.go: RequestObject, ClientAssertion")],
["FederationEntity.EntityConfigurationJWT","TrustMarkIssuer.IssueTrustMark","TrustMarkOwner.DelegationJWT","RequestObjectProducer.RequestObject","RequestObjectProducer.ClientAssertion"])

p("C18","Remote resolution falls back and never decides on a failure",
"The smart remote resolver returns the answer of the first requested anchor whose resolve endpoint gives a positive answer and otherwise resolves locally, so that whenever local resolution succeeds it succeeds as well, whatever the remote endpoints do. A subject is reported as confirmed valid or confirmed invalid only on the strength of an actual answer, never because a resolve endpoint could not be reached or gave an error or an unusable answer; an answer counts only if it is about the requested subject and has not expired.",
["fault_sequences","inputs","histories","configurations"],
"All combinations of endpoint availability, error answers, garbage and stalls over several anchors.",
"No test runs the remote resolvers against failing endpoints.",
["metadata_resolver.go"],
[("iteration over anchors and fallback","metadata_resolver.go: SmartRemoteMetadataResolver"),("classification of answers","metadata_resolver.go: SimpleRemoteMetadataResolver")],
["SmartRemoteMetadataResolver.Resolve","SmartRemoteMetadataResolver.ResolveResponsePayload","SmartRemoteMetadataResolver.ResolvePossible","SimpleRemoteMetadataResolver.ResolvePossible","ParseResolveResponse"])

p("C19","Remote collection falls back and passes the whole request on",
"The smart remote collector asks the collection endpoints of the requested anchor and then of the other configured anchors, returns the first answer an endpoint actually gives, and collects locally if none does, so that failing endpoints never turn into an empty result. The request sent to an endpoint carries every restriction of the original request.",
["fault_sequences","inputs","configurations","histories"],
"All combinations of endpoint availability, error pages, garbage and stalls over several anchors and all request parameters.",
"No test runs the remote collectors against failing endpoints or inspects the request they send.",
["discovery.go","apimodel/collection.go"],
[("iteration over anchors and fallback","discovery.go: SmartRemoteEntityCollector"),("request encoding","discovery.go: SimpleRemoteEntityCollector; apimodel")],
["SmartRemoteEntityCollector.CollectEntities","requests seen by the endpoints"])

p("C20","Hostile answers cannot crash or hang the process",
"No answer any other party can send (malformed, empty, huge, of the wrong kind, with missing, null or wrongly typed claims, hostile policies, constraints, keys, hints, trust marks or listings) makes an operation panic or never return. In a federation of finitely many entities each operation ends within the time its own requests may take, and a hostile party affects only results that depend on it.",
["inputs","fault_sequences","schedules","histories"],
"All answers of all other parties to all requests, in all federations, in any combination with delivery faults.",
"The tests' peers are well behaved; the few negative cases are single values at one call.",
["trustresolver.go","entitystatement.go","metadata.go","metadataPolicy.go","policyoperators.go","internal/utils/slices.go","discovery.go","trustmark.go","metadata_resolver.go","internal/http/http.go"],
[("decoding and checks of untrusted statements","entitystatement.go, trustresolver.go, metadata.go, policyoperators.go")],
["all exported operations that contact other parties"])

p("C21","A relying party only talks to providers it has verified",
"An authorization URL or token request is produced only for a provider whose metadata was resolved through a valid trust chain to one of the relying party's anchors at that time, uses exactly the endpoints and issuer of that resolved metadata, and carries a correctly signed, unexpired request object or client assertion bound to this relying party and that audience. Otherwise the call returns an error without contacting the provider; the caller's parameters are not altered.",
["histories","fault_sequences","schedules","inputs"],
"All provider states (valid, removed, policy rejected, without provider metadata, unreachable, hostile) over time, all cache and network faults, concurrent calls sharing parameters.",
"Tests build single request objects; the flow against a provider that changes, disappears or answers with errors is not tested.",
["federation.go","authcode.go"],
[("provider resolution","federation.go: ResolveOPMetadata"),("request construction","authcode.go: GetAuthorizationURL, CodeExchange")],
["FederationLeaf.GetAuthorizationURL","FederationLeaf.CodeExchange","FederationLeaf.ResolveOPMetadata","requests seen by the provider"])

p("C22","Metadata policy operators implement their definition",
"Merging and applying metadata policy operators (value, add, default, one_of, subset_of, superset_of, essential) yields for all values the result the specification defines, independent of the order in which equal ranked policies are combined.",
["inputs"],
"All policy values and metadata values.",
"The test vectors sample several thousand fixed cases of an unbounded input space.",
["metadataPolicy.go","policyoperators.go","policyverifiers.go"],
[("operators","policyoperators.go")],
["CombineMetadataPolicy","MetadataPolicyEntry.ApplyTo"])

p("C23","Encoding and decoding of statements and metadata loses nothing",
"Decoding any well formed statement, metadata, policy, trust mark or key set from JSON and encoding it again preserves all claims, including ones unknown to the library.",
["inputs"],
"All well formed documents.",
"Tests round trip a few documents.",
["entitystatement.go","metadata.go","metadata_generated.go","jwks/jwks.go","unixtime/unixtime.go","sliceorsinglevalue.go"],
[("extra claims handling","entitystatement.go: unmarshalWithExtra, extraMarshalHelper")],
["json.Marshal and json.Unmarshal of exported types"])

p("C24","Chain filters and scores select what they say",
"Filtering and sorting a set of trust chains by trust anchor, path length, expiry or metadata returns exactly the chains satisfying the criterion in the stated order.",
["inputs"],
"All sets of chains.",
"Tests use small fixed sets.",
["trustchainfilter.go"],
[("filters","trustchainfilter.go")],
["TrustChains.Filter","TrustChains.SortAsc","TrustChains.SortDesc"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
open(out,"w").write("".join(json.dumps(x)+"\n" for x in P))
for x in P:
    assert len(x["title"])<=80,x["id"]
    
