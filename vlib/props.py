"""property -> scenarios (name, share of the time, parameters)"""
_T = ("Samples executions: a clean batch is evidence, not proof. Trusts the simulator's model of threads (one at a time, switched at "
      "intercepted calls and at random basic blocks), sockets, clocks and files, and the scenario's reference model.")
PROPS = {
    "C01": dict(scenarios=[("gauge", 2), ("ring", 1)], note="Reference model: a map from (counter, second) to (count, sum, sum of squares, min, max), folded to 10 s and 60 s. " + _T),
    "C02": dict(scenarios=[("events", 2), ("evcrash", 1)], note="Reference model: a map from (counter, second) to the sum of event values and the number of intervals. " + _T),
    "C03": dict(scenarios=[("ring", 3), ("ring", 1, {"clock": "1"})], note="Reference model: the rings of 512 buckets each, fed in the order of arrival. " + _T),
    "C04": dict(scenarios=[("durable", 1, {"focus": "age"})], note="Reference model: per counter, ring and bucket the states the bucket went through since the last start, and when each was handled. Allowance: 1.2 flush intervals + 4 s (3 + 8 s when threads are stalled). " + _T),
    "C05": dict(scenarios=[("durable", 1, {"focus": "garbage"})], note="Reference model: every state each bucket went through. A kill tears writes at page-cache pages only. " + _T),
    "C07": dict(scenarios=[("durable", 1, {"focus": "flush"}), ("evcrash", 1)], note="Reference model: the samples and events handled before each flush command. " + _T),
    "C08": dict(scenarios=[("agent", 1)], note="Reference model: a map from (counter, second) to the aggregate of the samples sent to the agent; compared at 10 s and coarser, as agents combine samples of 10 s. " + _T),
    "C09": dict(scenarios=[("link", 1)], note="Oracle: values are powers of three, so that the sum of a bucket tells which samples it holds, and how often. " + _T),
    "C10": dict(scenarios=[("agentflush", 1)], note="The master is a bare socket of the harness that records what it is given. " + _T),
    "C11": dict(scenarios=[("lines", 1)], note="Reference model: the lines as a whole, one by one; the daemon gets them in arbitrary segments and datagrams, mixed with malformed ones. " + _T),
    "C12": dict(scenarios=[("fuzz", 1)], note="Generated and mutated input on every port, in arbitrary segments, with resets and half closes; the oracle is that the daemon neither dies (AddressSanitizer, assertions, uncaught exceptions) nor stops answering. " + _T),
    "C13": dict(scenarios=[("lifecycle", 2), ("lifecycle", 1, {"crash": "1"})], note="Reference model: per counter its lives; the samples of the present life. " + _T),
    "C14": dict(scenarios=[("lifecycle", 1, {"list": "1"})], note="Reference model: the set of counters that exist for certain, and that may exist, during the request. " + _T),
    "C06": dict(scenarios=[("diskfault", 1)], note="Oracle: the daemon survives failing disk operations, keeps what it had acknowledged before, and records and stores again as soon as the failures end. " + _T),
    "C15": dict(scenarios=[("settings", 1)], note="Reference model: the history of each key, and how much of it must be on the disk. " + _T),
    "C16": dict(scenarios=[("httpmix", 1)], note="Oracle: the answer to each kind of request when it is asked for alone is the answer it gets from a daemon that is busy with others, in any segmentation; the count of requests in progress returns to zero. " + _T),
    "C19": dict(scenarios=[("maint", 1)], note="Operations of all kinds on files and connections fail for a while, while everything periodic goes on; afterwards each periodic duty is checked by what it does. " + _T),
    "C20": dict(scenarios=[("conns", 1, {"bl": "1"})], note="Reference model: the sets of hosts the file listed over time, and so what the daemon may know at any time; allowance: the period + 2 s (8 s when threads are stalled). " + _T),
    "C21": dict(scenarios=[("conns", 1), ("conns", 1, {"bl": "1"}), ("conns", 1, {"churn": "1"})], note="Oracle: the connections of the simulated clients that are open. " + _T),
    "C22": dict(scenarios=[("conns", 3, {"churn": "1"}), ("conns", 2, {"bl": "1"})], note="Oracle: the simulator's table of descriptors of the daemon, before and after. " + _T),
    "C25": dict(scenarios=[("lifecycle", 1, {"prune": "1"})], note="Oracle: samples of counters are not lost while directories are pruned, and after the last change no empty directory stays and the store stays. " + _T),
    "C27": dict(scenarios=[("admincmd", 1)], note="Oracle: the answers to the commands that were sent, in order. " + _T),
    "C17": dict(scenarios=[("readers", 1)], note="Oracle: values are powers of three, so that the aggregate of a bucket tells the set of samples it holds; each reader's answers only ever gain samples, and hold all that were handled before it asked. " + _T),
    "C18": dict(scenarios=[("prom", 8), ("prom", 1, {"strict": "1"})], note="Reference model: the sum of the events per exported series, with the time by which each was handled; the gauge samples of the last clean-up round; a parser of the exposition format. " + _T),
    "C23": dict(scenarios=[("mixed", 3), ("fuzz", 1), ("conns", 1, {"churn": "1"})], note="Oracle: AddressSanitizer, assertions, uncaught exceptions, hang and deadlock verdicts of the scheduler while everything runs together, and answers on every port afterwards. A data race that neither corrupts memory nor blocks is not an error of this property. " + _T),
    "C24": dict(scenarios=[("clock", 3), ("ring", 1, {"clock": "1"})], note="Reference model: the rings as in C03, with the daemon's clock stepped at any point; periodic work is checked by what it does (stored samples, saved settings, self counters, forwarded samples). " + _T),
    "C28": dict(scenarios=[("repl", 1)], note="Reference model: the units of each stream and what each leads to; the harness knows which connections are open. " + _T),
}
NA = {
    "C29": "a pure function of the name: no schedule, clock, fault or interleaving for the property to depend on",
    "C30": "numerical accuracy of a pure computation: nothing for a simulator to decide",
    "C31": "parsing of configuration text is a pure function of its input",
}
