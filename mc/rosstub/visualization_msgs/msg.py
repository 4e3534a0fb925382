from _ros import Marker
