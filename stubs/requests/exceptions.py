class RequestException(IOError):
    def __init__(self, *a, **kw):
        self.response = kw.pop("response", None)
        self.request = kw.pop("request", None)
        super().__init__(*a)


class HTTPError(RequestException):
    pass


class ConnectionError(RequestException):
    pass


class Timeout(RequestException):
    pass


class ConnectTimeout(ConnectionError, Timeout):
    pass


class ReadTimeout(Timeout):
    pass


class ChunkedEncodingError(RequestException):
    pass


class ContentDecodingError(RequestException):
    pass
