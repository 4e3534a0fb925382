from _ros import tfMessage as TFMessage
