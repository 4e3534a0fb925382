from _ros import Buffer, TransformBroadcaster, StaticTransformBroadcaster, TransformException, LookupException, ConnectivityException, ExtrapolationException
