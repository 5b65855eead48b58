#!/usr/bin/env python3
"""Writes /verif/known-findings.txt: the defects found in the code under test.

Lines "fixed: property=<id> <commit> <what failed>" are for the record only; lines that
are JSON objects {"property","id","what","match"} are defects that are not repaired."""
import subprocess
P = {  # subject -> properties, what failed
 "do not resolve trust mark issuers endlessly": ("C14", "with the smart remote resolver as the default one, verifying a mark whose issuer has a mark issued by itself never ended (C14, C15, C12, C20)"),
 "use the keys of a leaf's trust anchors with the smart": ("C21", "with the smart remote resolver as the default one, the keys set for the anchors of a relying party were not used"),
 "accept JWTs in compact serialization only": ("C16", "a JWS in JSON serialization from a trust mark issuer was taken as a trust mark and published in the own configuration although it is no JWT (C16, C20)"),
 "memory cache reads and writes entries under a lock": ("C13", "data race on the entries of the memory cache: reading an entry while another goroutine stores a new value under the same key"),
 "limit the size of responses": ("C20", "a response of unlimited size was read into memory completely"),
 "ignore malformed Ed25519 keys": ("C20", "a published Ed25519 key of a wrong length crashed the process in signature verification"),
 "keys of the trust anchors belong to the key": ("C08", "a resolution with pinned anchor keys was answered from the cache with chains found for other pins, and the other way round"),
 "cache trust trees and chains until the earliest": ("C06", "trees and chains were cached for longer than their statements lived (for ever without expiry) and also when something was only missing because of a failure (C02, C06, C07)"),
 "check the entity configuration of the starting": ("C01", "a chain started with an entity configuration of another entity, or an expired one, when the requested entity served such (C01, C02)"),
 "only return trust chains that end at": ("C01", "chains were returned that end at an entity without verified keys of a requested anchor"),
 "do not return trust chains twice": ("C04", "an authority hint listed twice gave every chain over it twice"),
 "do not use trust trees and chains that could not": ("C09", "a damaged cache entry left a half decoded tree or chain behind which was used"),
 "do not hand out trust chains with statements that expired": ("C02", "chains were handed out whose statements expired during a slow resolution or in the cache"),
 "do not use cache entries that are kept for too long": ("C09", "with a slow cache, entries outlived their statements and a resolver answered with no chain or an expired statement instead of asking again"),
 "publish configurations with the current time": ("C16", "a configuration was issued with the time before its trust marks were obtained and could show a mark that expired meanwhile (C16, C17)"),
 "keep scores and chains together": ("C05", "sorting chains did not move the scores along, so a resolver did not choose a shortest chain"),
 "refresh cached statements after, not before": ("C10", "the background refresh started before instead of after the configured share of the lifetime"),
 "do not cache statements that are not valid": ("C07", "an unusable statement was cached and replaced a good one, so a failure outlived its cause (C07, C10)"),
 "decode metadata policies for unknown entity types": ("C05", "policies for entity types unknown to the library made the whole statement undecodable or were ignored (C04, C05)"),
 "keep and verify all operators": ("C05", "combining policies lost operators and accepted contradicting ones"),
 "do not panic on or change policy values": ("C20", "policy values of unexpected types made the process panic; applying a policy changed the shared policy values (C20, C05)"),
 "apply metadata policies to all claims": ("C05", "policies were not applied to claims unknown to the library and failed for claims of special types (C05, C20)"),
 "metadata from the cache has the same claims": ("C05", "metadata that went through the cache lost or gained claims"),
 "entity types unknown to this module": ("C03", "entity types unknown to the library escaped allowed_entity_types and collections (C03, C12)"),
 "maintain the trust marks of the entity configuration": ("C16", "expired, foreign or missing marks were published, renewals raced, the issuer was asked again and again (C16, C13)"),
 "custom lifetime of trust mark delegations": ("C17", "a delegation with a requested lifetime had none if there was no default lifetime"),
 "do not panic on trust mark issuers without keys": ("C20", "a trust mark issuer without keys made the process panic"),
 "error responses and unusable subordinate listings": ("C07", "an error page was taken for an answer, an unusable listing for an empty one (C07, C11)"),
 "only usable resolve responses": ("C18", "undecodable, expired or foreign resolve responses decided, an unreachable endpoint counted as confirmed invalid"),
 "pass the name query on": ("C19", "the name query was not sent to collection endpoints"),
 "no data race between concurrent verifications": ("C13", "data race when the same trust mark was verified concurrently"),
 "trust marks count only for the entity itself": ("C15", "trust marks of others were reported and satisfied filters; only the first mark of a type was considered (C15, C12)"),
 "trust marks issued to the entity itself count": ("C15", "trust marks of others were reported and satisfied filters; only the first mark of a type was considered (C15, C12)"),
 "only trust marks issued to the entity itself": ("C15", "trust marks of others were reported and satisfied filters; only the first mark of a type was considered (C15, C12)"),
 "no data race between and within entity collections": ("C13", "data races and lost entries in concurrent collections (C13, C11)"),
 "only use entity configurations that are about": ("C11", "configurations about other entities or expired ones were used by collectors, remote resolvers and trust marks (C11, C12, C02)"),
 "report keywords and set the UI info": ("C12", "UI info fields and keywords of collected entities were missing or mixed up"),
 "ignore null entries in entity collection": ("C20", "a null entry in a collection response made the process panic"),
 "resolving OP metadata does not depend on the cache": ("C21", "a cache error or missing provider metadata gave a nil provider or a failure (C09, C21)"),
 "use the keys set for the trust anchors when resolving OP": ("C21", "pinned anchor keys were not used when resolving provider metadata"),
 "do not change the parameters passed by the caller": ("C21", "the caller's parameters were altered by authorization requests"),
 "keep the query of the authorization endpoint": ("C21", "the query of the authorization endpoint was lost; an empty endpoint was accepted"),
 "token requests end in time": ("C21", "a token request could hang for ever and error responses were taken for tokens (C21, C20)"),
 "do not mix the trust trees of successive": ("C01", "a TrustResolver used for several resolutions returned chains of a previous query, chains with unverified signatures from a cached tree, and changed statements handed out before (C01, C05, C08)"),
 "ignore unknown policy operators": ("C05", "a chain was rejected because of an unknown, not critical policy operator next to a known one"),
}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
extra = open("/verif/tools/findings.jsonl").read() if __import__("os").path.exists("/verif/tools/findings.jsonl") else ""
out = [
"# Defects found in the code under test.",
"# fixed: repaired in /repo; suppresses nothing. JSON lines: known, not repaired.",
]
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    m = [v for k, v in P.items() if k in s]
    if not m:
        print("no entry for", l); continue
    out.append(f"fixed: property={m[0][0]} {h} {m[0][1]}")
open("/verif/known-findings.txt", "w").write("\n".join(out) + "\n" + extra)
