"""Runs scenarios in the code under test; crash, exit and hang of the code are
observations. usage: worker.py MODULE SCENARIOS.json OBSERVATIONS.ndjson SECONDS
"""
import importlib
import json
import os
import resource
import select
import signal
import sys
import time


def child(module, scenarios, start, fd):
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    out = os.fdopen(fd, "w")
    execute = importlib.import_module(module).execute
    out.write("R\n")
    out.flush()
    for item in scenarios[start:]:
        try:
            text = json.dumps(execute(item), separators=(",", ":"))
        except Exception as error:  # not handled by the scenario: unexpected
            text = json.dumps({"crash": "exception %s" % repr(error)[:300]})
        out.write(text + "\n")
        out.flush()
    out.close()
    sys.stdout.flush()
    os._exit(0)


def main(module, path_in, path_out, per_item):
    with open(path_in) as file_:
        scenarios = json.load(file_)
    # import here: an import failure is reported as a machinery error and
    # the forked processes do not pay for it again
    importlib.import_module(module)
    done = 0
    crashes = 0
    with open(path_out, "w") as out:
        while done < len(scenarios):
            if crashes > 25:
                for _ in scenarios[done:]:
                    out.write('{"crash":"not run after repeated crashes"}\n')
                break
            rfd, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(rfd)
                try:
                    child(module, scenarios, done, wfd)
                except BaseException:  # harness bug, not an observation
                    import traceback
                    traceback.print_exc()
                    sys.stderr.flush()
                    os._exit(97)
            os.close(wfd)
            buf = b""
            deadline = time.time() + per_item
            reason = None
            ready = False
            while True:
                rlist, _, _ = select.select([rfd], [], [], max(0.1, deadline - time.time()))
                if not rlist:
                    if time.time() >= deadline:
                        os.kill(pid, signal.SIGKILL)
                        reason = "hang"
                        break
                    continue
                data = os.read(rfd, 1 << 16)
                if not data:
                    break
                buf += data
                *full, buf = buf.split(b"\n")
                for line in full:
                    if not ready:
                        ready = True
                        continue
                    out.write(line.decode() + "\n")
                    done += 1
                deadline = time.time() + per_item
            os.close(rfd)
            _, status = os.waitpid(pid, 0)
            if done >= len(scenarios):
                break
            if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 97:
                print("harness exception in scenario", json.dumps(scenarios[done])[:2000])
                return 1
            if reason is None:
                reason = ("signal %d" % os.WTERMSIG(status)
                          if os.WIFSIGNALED(status)
                          else "exit %d" % os.WEXITSTATUS(status))
            out.write(json.dumps({"crash": reason}) + "\n")
            done += 1
            crashes += 1
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1], sys.argv[2], sys.argv[3], float(sys.argv[4])))
