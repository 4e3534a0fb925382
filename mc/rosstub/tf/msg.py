from _ros import tfMessage
