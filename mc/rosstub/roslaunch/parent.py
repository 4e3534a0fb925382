import _ros


class ROSLaunchParent:
    def __new__(cls, *args, **kw):
        if _ros.W.launcher is not None:
            return _ros.W.launcher(*args, **kw)
        return super().__new__(cls)

    def __init__(self, run_id, roslaunch_files, is_core=False, **kw):
        self.args = (run_id, list(roslaunch_files), is_core)
        self.running = False
        _ros.W.events.append(("ROSLaunchParent", run_id, is_core))

    def start(self, auto_terminate=True):
        _ros.W.events.append(("start", id(self)))
        _ros.W.master_start()
        self.running = True

    def shutdown(self):
        _ros.W.events.append(("shutdown", id(self)))
        self.running = False
