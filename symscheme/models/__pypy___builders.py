class StringBuilder(object):
    def __init__(self, size=0):
        self.parts = []

    def append(self, s):
        self.parts.append(s)

    def append_slice(self, s, start, end):
        self.parts.append(s[start:end])

    def build(self):
        return ''.join(self.parts)

UnicodeBuilder = StringBuilder
