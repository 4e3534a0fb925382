from _ros import Odometry
