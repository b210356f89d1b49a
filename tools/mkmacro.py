#!/usr/bin/env python3
"""writes ../contracts/macro/60_macro.vx: the contracts of the code the macros generate for ../macros/src/lib.rs"""
import os
HERE = os.path.dirname(os.path.abspath(__file__))
# module, type, fields, what a run gives (over `d`, the data the job carries), is it a #[job] function
FX = [
    ("hello", "JobHello", ["name"], "r@ == d.name@", True),
    ("swap_two", "JobSwapTwo", ["a", "b"], "r == (d.b, d.a)", True),
    ("seven", "JobSeven", [], "r == 7", True),
    ("quiet", "JobQuiet", ["_name", "_n"], "true", True),
    ("at_most_ten", "JobAtMostTen", ["n", "tag"], "r == (if d.n > 10 { 10u32 } else { d.n }, d.tag)", True),
    ("rot4", "JobRot4", ["a", "b", "c", "fail"], "r == (if d.fail { Err::<(u8, u8, u8), u8>(d.b) } else { Ok((d.c, d.a, d.b)) })", True),
    ("names_v2", "JobNamesV2", ["msg", "job_id"], "r == (match d.job_id { Some(x) => x, None => d.msg })", True),
    ("step2_six_args", "JobStep2SixArgs", list("abcdef"), "r == ((d.b, d.a, d.d), (d.c, d.f, d.e))", True),
    ("x", "JobX", ["x"], "r == d.x", True),
    ("send_email", "JobSendEmail", ["to", "subject", "body"], "r.0@ == d.subject@ && r.1@ == d.to@", True),
    ("fx_derive", "Print", None, "r == d.number", False),
    ("fx_derive", "Pair", None, "r == d.1", False),
    ("fx_derive", "Task2", None, "r == (d is One)", False),
] + [("fx_names", n, None, "r == d.n", False) for n in "Send SendJob JobSend Job2 A snake_case_type HTTPClient X9 AVeryLongNameOfAJobTypeThatGoesOnAndOnForMoreThanSixtyFourCharacters0123456789 Queue queue send".split()]
USES = "m_error m_job_context m_job m_executable m_aj m_queue m_lib".split()
FRESH = "{0}.context.job_type == JobType::Normal && {0}.context.job_status == JobStatus::Queued && {0}.context.retry is None && {0}.context.run_count == 0"


def main():
    o = ["## written by tools/mkmacro.py"]
    last = None
    for mod, ty, fields, run, is_fn in FX:
        fields = fields or []
        new = ty + (" { " + ", ".join("%s: ${p%d}" % (f, i) for i, f in enumerate(fields)) + " }" if fields else " { }")
        cx = "${p%d}" % len(fields)
        if mod != last:
            o.append("file @%s.rs mod m_fx_%s" % (mod, mod))
            o += ["use use crate::%s::*;" % u for u in USES]
        last = mod
        o += ["impl_extra %s as BackgroundJob" % ty, '  open spec fn vx_queue_name() -> Str { "%s"@ }' % ty]
        o += ["fn %s as BackgroundJob.queue_name | props=C19" % ty, "  ensures", '    - [C19] r@ == "%s"@' % ty]
        o += ["fn %s as BackgroundJob.job | props=C19" % ty, "  ensures", "    - [C19] r.data == self", "    - [C19] " + FRESH.format("r"),
              "    - clock_ext(*old(w), *final(w))", "    - final(w).same_but_clock(*old(w)) && final(w).app == old(w).app"]
        o += ["fn %s as Executable.execute | props=C19" % ty, "  ensures", "    - [C19] ({ let d = *old(self); %s })" % run, "    - [C19] *final(self) == *old(self)",
              "  body_bottom", "    broadcast use lemma_inv_frame;",
              "    proof { vx_note(w, Note::Exec { cx: enc(*${p0}), d0: enc(*old(self)), d1: enc(*self), out: enc(vx_ret) }); }"]
        if not is_fn:
            continue
        req = ["  requires", "    - old(w).app.aj is Some && reg_ok(*old(w))"]
        sent = "(r is Err && final(w).faulted && final(w).app.sent == old(w).app.sent)\n      || (sent_to_queue::<%s, Enqueue<%s>>(*old(w), *final(w)) && ({ let m = sent_msg::<Enqueue<%s>>(*final(w)); m.0.data == %s && %%s && m.1 == EnqueueConfig { re_run: true, override_data: true } && (r is Ok ==> r->Ok_0@ == m.0.context.job_id@) }))" % (ty, ty, ty, new)
        asked = '    - [C19] asked_for_queue::<%s>(*old(w), *final(w), "%s"@)' % (ty, ty)
        o += ["fn run | seffect props=C19"] + req + ["  ensures", "    - [C19] " + sent % FRESH.format("m.0"), asked]
        o += ["fn run_with_context | seffect props=C19"] + req + ["  ensures", "    - [C19] " + sent % ("m.0.context == " + cx), asked]
        just = '({ let m = dec::<JustRunJob<%s>>(final(w).app.asked.last().msg); m.job.data == %s && %%s && m.queue_name@ == "%s"@ && final(w).app == (App { asked: old(w).app.asked.push(Asked { to: old(w).app.aj->0, msg: enc(m) }), ..old(w).app }) })' % (ty, new, ty)
        o += ["fn just_run | seffect props=C19", "  ensures", "    - [C19] old(w).app.aj is Some ==> " + just % FRESH.format("m.job")]
        o += ["fn just_run_with_context | seffect props=C19", "  ensures", "    - [C19] old(w).app.aj is Some ==> " + just % ("m.job.context == " + cx)]
    open(os.path.join(os.path.dirname(HERE), "contracts", "macro", "60_macro.vx"), "w").write("\n".join(o) + "\n")


main()
