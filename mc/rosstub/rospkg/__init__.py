class ResourceNotFound(Exception):
    pass
