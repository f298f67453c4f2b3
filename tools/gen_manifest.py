import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
NA={}
NOTE={
"C01":"Reference: the same call in a process of its own with one worker run to completion in order.",
"C02":"Work after the return is counted at instrumented edges; late writes are seen in the returned pixels and in poisoned freed memory.",
"C03":"Threads counted by the simulator at creation and end, memory by the simulated heap; four repetitions of the same calls.",
"C04":"Reference: decode_buffer of the bytes the simulated file system handed out.",
"C05":"Every open/read/stat of the simulated file system can fail with any errno at any point; later calls compared with fresh ones.",
"C06":"Panics on any thread, aborts, signals, writes outside heap blocks (redzones) and to freed blocks (poison) are violations; overflow checks and debug assertions are on. Out-of-bounds reads inside the process are only seen if they fault or change results.",
"C07":"Work is counted in instrumented edges against a bound linear in input length, declared blocks and scans; deadlock and lack of progress are detected by the scheduler.",
"C08":"The frame header is re-read by an independent parser.",
"C09":"Peak heap measured by the simulated heap, bound 40 bytes per pixel of the limits plus 8 per input byte plus 4 MiB.",
"C10":"Reference: each call alone on a fresh decoder in a process of its own.",
"C11":"Two to four callers; reference: each call alone in a process of its own.",
"C12":"Positions of MCU rows of every scan in the file are known from the encoder that made the image.",
"C13":"Each plan is executed twice with complementary contents of fresh memory; redzones and poison checked.",
"C14":"pthread_create fails for any subset of the workers of the first call.",
"C15":"Headers, decode and headers of a copy damaged behind the scan header.",
"C16":"Segments of any content and stray bytes at every header boundary; lenient and strict.",
"C17":"Reference: an exact (floating point) inverse DCT and colour conversion of the coefficients the generator stored; sub-sampled chroma must lie within the 2x2 samples around the pixel, the exact filter is not prescribed.",
"C18":"Both code paths run in the same simulated session, compared byte for byte, on intact and damaged images.",
"C19":"Calls in different colour spaces on used and fresh decoders of one session, compared with each other.",
"C20":"The same coefficients are stored plainly and decoded alone for comparison.",
"C21":"The coefficients as carried so far are stored plainly and decoded alone for comparison.",
"C22":"The encoder records which bytes belong to which restart interval and which rows; in-place damage only, markers unchanged.",
}
checks=[]
for p in props:
    i=p['id']
    if i in NA: continue
    checks.append(dict(property=i,quick_cmd=f"./check.sh {i}",thorough_cmd=f"./check.sh {i} thorough",evidence_file=f"evidence/{i}.json",
      technique="deterministic simulation with fault injection (seeded schedules, file, storage, thread-creation and memory faults; reference runs as oracle)",
      level="exploration",
      level_note=NOTE[i]+" Seeded exploration, not exhaustive; interleaving granularity is the basic block, sequentially consistent memory is assumed."))
m=dict(version=1,setup_cmd="./check.sh build",checks=checks,not_applicable=[dict(property=k,reason=v) for k,v in NA.items()],
 notes="No hooks in /repo: the simulator interposes on libc (threads, futexes, files, clock) and on the allocator, and instruments the unmodified crate with SanitizerCoverage edges through a rustc wrapper in /verif/sim.")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
