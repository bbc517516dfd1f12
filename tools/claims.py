MON = "the real code run on generated histories; only what those executions show is decided"
CLAIMED = {
 "C01": ("runtime monitor: panic and termination watch over generated hostile input", MON),
 "C02": ("runtime monitor: round-trip checker against an independent reading of each header", MON),
 "C03": ("runtime monitor: ASCII and canonical-spelling checker over every producer", MON),
 "C04": ("runtime monitor: trace checker against a reference multimap", MON),
 "C05": ("runtime monitor: byte-stream checker under scheduled/faulty sources", MON),
 "C06": ("runtime monitor: model-based state checker", MON),
 "C07": ("runtime monitor: model-based state checker over operation sequences", MON),
 "C08": ("runtime monitor: round-trip and fault-injection checker", MON),
 "C09": ("runtime monitor: differential checker against an independent calendar", MON),
 "C10": ("runtime monitor: differential checker against a reference parser", MON),
 "C11": ("runtime monitor: matching-order checker over enumerated triples", MON),
 "C12": ("runtime monitor: differential checker against reference negotiators, with sort/negotiate histories", MON),
 "C13": ("runtime monitor: exactly-once checker over enumerated, random and threaded schedules", MON),
 "C14": ("runtime monitor: exactly-once and byte-stream checker under scheduled and faulty I/O", MON),
 "C15": ("runtime monitor: model-based state checker with drop accounting", MON),
 "C16": ("runtime monitor: differential checker of messages converted both ways", MON),
 "C17": ("runtime monitor: exhaustive table checker over every number and spelling", MON),
 "C18": ("runtime monitor: differential checker against a reference priority rule", MON),
 "C19": ("runtime monitor: error-status checker over malformed headers", MON),
 "C20": ("runtime monitor: model-based status and cause checker", MON),
 "C21": ("runtime monitor: model-based state checker over families of clones", MON),
 "C22": ("AddressSanitizer, ThreadSanitizer and Miri over the workloads of all monitors, with string and shared-read checkers", "undefined behaviour and data races on the executed paths only"),
 "C23": ("runtime monitor: model-based checker over helper and builder histories", MON),
 "C24": ("runtime monitor: round-trip checker", MON),
 "C25": ("runtime monitor: lineage checker over recorded chains of contexts", MON),
 "C26": ("runtime monitor: differential checker between line layouts", MON),
 "C27": ("runtime monitor: model-based state checker over setter histories", MON),
 "C29": ("runtime monitor: counting allocator (live, peak, total) over workloads of all monitors, with linear bounds and leak check", MON),
 "C30": ("runtime monitor: repeat checker over recorded results (after other work, on other threads, shared, in a fresh process)", MON),
 "C28": ("runtime monitor: law checker (equality, order, hash, clone) over triples of values", MON),
}
CMD = {}
HOOKS = None
