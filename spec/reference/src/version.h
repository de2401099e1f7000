const std::string  __version__ = "1.6.3"; 
