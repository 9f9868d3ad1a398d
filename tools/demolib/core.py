class Violation(Exception):
    def __init__(self, msg, key = None):
        super().__init__(msg)
        self.key = key
def classify_exception(ex): return 'code'
