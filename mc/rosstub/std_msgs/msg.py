from _ros import ColorRGBA, Header, String
