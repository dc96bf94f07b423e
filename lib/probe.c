#include "config.h"
#include <sys/types.h>
#include <time.h>
#include <stdio.h>
#include "IPcheck.h"
#include "capab.h"
#include "channel.h"
#include "class.h"
#include "client.h"
#include "crule.h"
#include "dbuf.h"
#include "destruct_event.h"
#include "fileio.h"
#include "gline.h"
#include "handlers.h"
#include "hash.h"
#include "ircd.h"
#include "ircd_alloc.h"
#include "ircd_chattr.h"
#include "ircd_crypt.h"
#include "ircd_defs.h"
#include "ircd_events.h"
#include "ircd_features.h"
#include "ircd_handler.h"
#include "ircd_log.h"
#include "ircd_md5.h"
#include "ircd_netconf.h"
#include "ircd_osdep.h"
#include "ircd_relay.h"
#include "ircd_reply.h"
#include "ircd_reslib.h"
#include "ircd_sha1.h"
#include "ircd_signal.h"
#include "ircd_snprintf.h"
#include "ircd_string.h"
#include "ircd_tls.h"
#include "jupe.h"
#include "list.h"
#include "listener.h"
#include "match.h"
#include "motd.h"
#include "msg.h"
#include "msg_tag.h"
#include "msgq.h"
#include "numeric.h"
#include "numnicks.h"
#include "opercmds.h"
#include "packet.h"
#include "parse.h"
#include "patchlevel.h"
#include "querycmds.h"
#include "random.h"
#include "res.h"
#include "s_auth.h"
#include "s_bsd.h"
#include "s_conf.h"
#include "s_debug.h"
#include "s_misc.h"
#include "s_numeric.h"
#include "s_serv.h"
#include "s_stats.h"
#include "s_user.h"
#include "sasl.h"
#include "send.h"
#include "sline.h"
#include "struct.h"
#include "supported.h"
#include "sys.h"
#include "uping.h"
#include "userload.h"
#include "version.h"
#include "websocket.h"
#include "whocmds.h"
#include "whowas.h"
#ifdef ACCOUNTLEN
const long K_ACCOUNTLEN = (long)(ACCOUNTLEN);
#endif
#ifdef ALLOWMODES_ANY
const long K_ALLOWMODES_ANY = (long)(ALLOWMODES_ANY);
#endif
#ifdef ALLOWMODES_DEFAULT
const long K_ALLOWMODES_DEFAULT = (long)(ALLOWMODES_DEFAULT);
#endif
#ifdef ALL_UMODES
const long K_ALL_UMODES = (long)(ALL_UMODES);
#endif
#ifdef AWAYLEN
const long K_AWAYLEN = (long)(AWAYLEN);
#endif
#ifdef BAN_ADD
const long K_BAN_ADD = (long)(BAN_ADD);
#endif
#ifdef BAN_BURSTED
const long K_BAN_BURSTED = (long)(BAN_BURSTED);
#endif
#ifdef BAN_BURST_WIPEOUT
const long K_BAN_BURST_WIPEOUT = (long)(BAN_BURST_WIPEOUT);
#endif
#ifdef BAN_DEL
const long K_BAN_DEL = (long)(BAN_DEL);
#endif
#ifdef BAN_EXCEPTION
const long K_BAN_EXCEPTION = (long)(BAN_EXCEPTION);
#endif
#ifdef BAN_IPMASK
const long K_BAN_IPMASK = (long)(BAN_IPMASK);
#endif
#ifdef BAN_OVERLAPPED
const long K_BAN_OVERLAPPED = (long)(BAN_OVERLAPPED);
#endif
#ifdef BITS_PER_COL
const long K_BITS_PER_COL = (long)(BITS_PER_COL);
#endif
#ifdef BITS_PER_COL_MASK
const long K_BITS_PER_COL_MASK = (long)(BITS_PER_COL_MASK);
#endif
#ifdef BUFSIZE
const long K_BUFSIZE = (long)(BUFSIZE);
#endif
#ifdef CAPFL_HIDDEN
const long K_CAPFL_HIDDEN = (long)(CAPFL_HIDDEN);
#endif
#ifdef CAPFL_HIDDEN_302
const long K_CAPFL_HIDDEN_302 = (long)(CAPFL_HIDDEN_302);
#endif
#ifdef CAPFL_PROHIBIT
const long K_CAPFL_PROHIBIT = (long)(CAPFL_PROHIBIT);
#endif
#ifdef CAPFL_PROTO
const long K_CAPFL_PROTO = (long)(CAPFL_PROTO);
#endif
#ifdef CAPFL_STICKY
const long K_CAPFL_STICKY = (long)(CAPFL_STICKY);
#endif
#ifdef CAPFL_STICKY_302
const long K_CAPFL_STICKY_302 = (long)(CAPFL_STICKY_302);
#endif
#ifdef CAPFL_UNAVAILABLE
const long K_CAPFL_UNAVAILABLE = (long)(CAPFL_UNAVAILABLE);
#endif
#ifdef CHANNELLEN
const long K_CHANNELLEN = (long)(CHANNELLEN);
#endif
#ifdef CHFL_BANNED
const long K_CHFL_BANNED = (long)(CHFL_BANNED);
#endif
#ifdef CHFL_BANVALID
const long K_CHFL_BANVALID = (long)(CHFL_BANVALID);
#endif
#ifdef CHFL_BANVALIDMASK
const long K_CHFL_BANVALIDMASK = (long)(CHFL_BANVALIDMASK);
#endif
#ifdef CHFL_BURST_ALREADY_OPPED
const long K_CHFL_BURST_ALREADY_OPPED = (long)(CHFL_BURST_ALREADY_OPPED);
#endif
#ifdef CHFL_BURST_ALREADY_VOICED
const long K_CHFL_BURST_ALREADY_VOICED = (long)(CHFL_BURST_ALREADY_VOICED);
#endif
#ifdef CHFL_BURST_JOINED
const long K_CHFL_BURST_JOINED = (long)(CHFL_BURST_JOINED);
#endif
#ifdef CHFL_CHANNEL_MANAGER
const long K_CHFL_CHANNEL_MANAGER = (long)(CHFL_CHANNEL_MANAGER);
#endif
#ifdef CHFL_CHANOP
const long K_CHFL_CHANOP = (long)(CHFL_CHANOP);
#endif
#ifdef CHFL_DELAYED
const long K_CHFL_DELAYED = (long)(CHFL_DELAYED);
#endif
#ifdef CHFL_DELAYED_TARGET
const long K_CHFL_DELAYED_TARGET = (long)(CHFL_DELAYED_TARGET);
#endif
#ifdef CHFL_DEOPPED
const long K_CHFL_DEOPPED = (long)(CHFL_DEOPPED);
#endif
#ifdef CHFL_OVERLAP
const long K_CHFL_OVERLAP = (long)(CHFL_OVERLAP);
#endif
#ifdef CHFL_SERVOPOK
const long K_CHFL_SERVOPOK = (long)(CHFL_SERVOPOK);
#endif
#ifdef CHFL_SILENCE_IPMASK
const long K_CHFL_SILENCE_IPMASK = (long)(CHFL_SILENCE_IPMASK);
#endif
#ifdef CHFL_USER_PARTING
const long K_CHFL_USER_PARTING = (long)(CHFL_USER_PARTING);
#endif
#ifdef CHFL_VOICE
const long K_CHFL_VOICE = (long)(CHFL_VOICE);
#endif
#ifdef CHFL_VOICED_OR_OPPED
const long K_CHFL_VOICED_OR_OPPED = (long)(CHFL_VOICED_OR_OPPED);
#endif
#ifdef CHFL_ZOMBIE
const long K_CHFL_ZOMBIE = (long)(CHFL_ZOMBIE);
#endif
#ifdef CLIENT_MAGIC
const long K_CLIENT_MAGIC = (long)(CLIENT_MAGIC);
#endif
#ifdef CLIENT_TCP_WINDOW
const long K_CLIENT_TCP_WINDOW = (long)(CLIENT_TCP_WINDOW);
#endif
#ifdef CMD_ACCOUNT
const long K_CMD_ACCOUNT = (long)(CMD_ACCOUNT);
#endif
#ifdef CMD_ADMIN
const long K_CMD_ADMIN = (long)(CMD_ADMIN);
#endif
#ifdef CMD_ASLL
const long K_CMD_ASLL = (long)(CMD_ASLL);
#endif
#ifdef CMD_AUTHENTICATE
const long K_CMD_AUTHENTICATE = (long)(CMD_AUTHENTICATE);
#endif
#ifdef CMD_AWAY
const long K_CMD_AWAY = (long)(CMD_AWAY);
#endif
#ifdef CMD_BURST
const long K_CMD_BURST = (long)(CMD_BURST);
#endif
#ifdef CMD_CAP
const long K_CMD_CAP = (long)(CMD_CAP);
#endif
#ifdef CMD_CHGHOST
const long K_CMD_CHGHOST = (long)(CMD_CHGHOST);
#endif
#ifdef CMD_CLEARMODE
const long K_CMD_CLEARMODE = (long)(CMD_CLEARMODE);
#endif
#ifdef CMD_CLOSE
const long K_CMD_CLOSE = (long)(CMD_CLOSE);
#endif
#ifdef CMD_CNOTICE
const long K_CMD_CNOTICE = (long)(CMD_CNOTICE);
#endif
#ifdef CMD_CONFIG
const long K_CMD_CONFIG = (long)(CMD_CONFIG);
#endif
#ifdef CMD_CONNECT
const long K_CMD_CONNECT = (long)(CMD_CONNECT);
#endif
#ifdef CMD_CPRIVMSG
const long K_CMD_CPRIVMSG = (long)(CMD_CPRIVMSG);
#endif
#ifdef CMD_CREATE
const long K_CMD_CREATE = (long)(CMD_CREATE);
#endif
#ifdef CMD_DESTRUCT
const long K_CMD_DESTRUCT = (long)(CMD_DESTRUCT);
#endif
#ifdef CMD_DESYNCH
const long K_CMD_DESYNCH = (long)(CMD_DESYNCH);
#endif
#ifdef CMD_DIE
const long K_CMD_DIE = (long)(CMD_DIE);
#endif
#ifdef CMD_DNS
const long K_CMD_DNS = (long)(CMD_DNS);
#endif
#ifdef CMD_END_OF_BURST
const long K_CMD_END_OF_BURST = (long)(CMD_END_OF_BURST);
#endif
#ifdef CMD_END_OF_BURST_ACK
const long K_CMD_END_OF_BURST_ACK = (long)(CMD_END_OF_BURST_ACK);
#endif
#ifdef CMD_ERROR
const long K_CMD_ERROR = (long)(CMD_ERROR);
#endif
#ifdef CMD_GLINE
const long K_CMD_GLINE = (long)(CMD_GLINE);
#endif
#ifdef CMD_HASH
const long K_CMD_HASH = (long)(CMD_HASH);
#endif
#ifdef CMD_HELP
const long K_CMD_HELP = (long)(CMD_HELP);
#endif
#ifdef CMD_INFO
const long K_CMD_INFO = (long)(CMD_INFO);
#endif
#ifdef CMD_INVITE
const long K_CMD_INVITE = (long)(CMD_INVITE);
#endif
#ifdef CMD_ISON
const long K_CMD_ISON = (long)(CMD_ISON);
#endif
#ifdef CMD_JOIN
const long K_CMD_JOIN = (long)(CMD_JOIN);
#endif
#ifdef CMD_JUPE
const long K_CMD_JUPE = (long)(CMD_JUPE);
#endif
#ifdef CMD_KICK
const long K_CMD_KICK = (long)(CMD_KICK);
#endif
#ifdef CMD_KILL
const long K_CMD_KILL = (long)(CMD_KILL);
#endif
#ifdef CMD_LINKS
const long K_CMD_LINKS = (long)(CMD_LINKS);
#endif
#ifdef CMD_LIST
const long K_CMD_LIST = (long)(CMD_LIST);
#endif
#ifdef CMD_LUSERS
const long K_CMD_LUSERS = (long)(CMD_LUSERS);
#endif
#ifdef CMD_MAP
const long K_CMD_MAP = (long)(CMD_MAP);
#endif
#ifdef CMD_MODE
const long K_CMD_MODE = (long)(CMD_MODE);
#endif
#ifdef CMD_MOTD
const long K_CMD_MOTD = (long)(CMD_MOTD);
#endif
#ifdef CMD_NAMES
const long K_CMD_NAMES = (long)(CMD_NAMES);
#endif
#ifdef CMD_NICK
const long K_CMD_NICK = (long)(CMD_NICK);
#endif
#ifdef CMD_NOTICE
const long K_CMD_NOTICE = (long)(CMD_NOTICE);
#endif
#ifdef CMD_OPER
const long K_CMD_OPER = (long)(CMD_OPER);
#endif
#ifdef CMD_OPMODE
const long K_CMD_OPMODE = (long)(CMD_OPMODE);
#endif
#ifdef CMD_PART
const long K_CMD_PART = (long)(CMD_PART);
#endif
#ifdef CMD_PASS
const long K_CMD_PASS = (long)(CMD_PASS);
#endif
#ifdef CMD_PING
const long K_CMD_PING = (long)(CMD_PING);
#endif
#ifdef CMD_PONG
const long K_CMD_PONG = (long)(CMD_PONG);
#endif
#ifdef CMD_PRIVATE
const long K_CMD_PRIVATE = (long)(CMD_PRIVATE);
#endif
#ifdef CMD_PRIVS
const long K_CMD_PRIVS = (long)(CMD_PRIVS);
#endif
#ifdef CMD_PROTO
const long K_CMD_PROTO = (long)(CMD_PROTO);
#endif
#ifdef CMD_QUIT
const long K_CMD_QUIT = (long)(CMD_QUIT);
#endif
#ifdef CMD_REHASH
const long K_CMD_REHASH = (long)(CMD_REHASH);
#endif
#ifdef CMD_RESTART
const long K_CMD_RESTART = (long)(CMD_RESTART);
#endif
#ifdef CMD_RPING
const long K_CMD_RPING = (long)(CMD_RPING);
#endif
#ifdef CMD_RPONG
const long K_CMD_RPONG = (long)(CMD_RPONG);
#endif
#ifdef CMD_SERVER
const long K_CMD_SERVER = (long)(CMD_SERVER);
#endif
#ifdef CMD_SERVLIST
const long K_CMD_SERVLIST = (long)(CMD_SERVLIST);
#endif
#ifdef CMD_SERVSET
const long K_CMD_SERVSET = (long)(CMD_SERVSET);
#endif
#ifdef CMD_SETTIME
const long K_CMD_SETTIME = (long)(CMD_SETTIME);
#endif
#ifdef CMD_SILENCE
const long K_CMD_SILENCE = (long)(CMD_SILENCE);
#endif
#ifdef CMD_SLINE
const long K_CMD_SLINE = (long)(CMD_SLINE);
#endif
#ifdef CMD_SQUERY
const long K_CMD_SQUERY = (long)(CMD_SQUERY);
#endif
#ifdef CMD_SQUIT
const long K_CMD_SQUIT = (long)(CMD_SQUIT);
#endif
#ifdef CMD_STATS
const long K_CMD_STATS = (long)(CMD_STATS);
#endif
#ifdef CMD_TAGMSG
const long K_CMD_TAGMSG = (long)(CMD_TAGMSG);
#endif
#ifdef CMD_TIME
const long K_CMD_TIME = (long)(CMD_TIME);
#endif
#ifdef CMD_TOPIC
const long K_CMD_TOPIC = (long)(CMD_TOPIC);
#endif
#ifdef CMD_TRACE
const long K_CMD_TRACE = (long)(CMD_TRACE);
#endif
#ifdef CMD_UPING
const long K_CMD_UPING = (long)(CMD_UPING);
#endif
#ifdef CMD_USER
const long K_CMD_USER = (long)(CMD_USER);
#endif
#ifdef CMD_USERHOST
const long K_CMD_USERHOST = (long)(CMD_USERHOST);
#endif
#ifdef CMD_USERIP
const long K_CMD_USERIP = (long)(CMD_USERIP);
#endif
#ifdef CMD_VERSION
const long K_CMD_VERSION = (long)(CMD_VERSION);
#endif
#ifdef CMD_WALLCHOPS
const long K_CMD_WALLCHOPS = (long)(CMD_WALLCHOPS);
#endif
#ifdef CMD_WALLOPS
const long K_CMD_WALLOPS = (long)(CMD_WALLOPS);
#endif
#ifdef CMD_WALLUSERS
const long K_CMD_WALLUSERS = (long)(CMD_WALLUSERS);
#endif
#ifdef CMD_WALLVOICES
const long K_CMD_WALLVOICES = (long)(CMD_WALLVOICES);
#endif
#ifdef CMD_WEBIRC
const long K_CMD_WEBIRC = (long)(CMD_WEBIRC);
#endif
#ifdef CMD_WHO
const long K_CMD_WHO = (long)(CMD_WHO);
#endif
#ifdef CMD_WHOIS
const long K_CMD_WHOIS = (long)(CMD_WHOIS);
#endif
#ifdef CMD_WHOWAS
const long K_CMD_WHOWAS = (long)(CMD_WHOWAS);
#endif
#ifdef CMD_XQUERY
const long K_CMD_XQUERY = (long)(CMD_XQUERY);
#endif
#ifdef CMD_XREPLY
const long K_CMD_XREPLY = (long)(CMD_XREPLY);
#endif
#ifdef CONFIG_CHANGED
const long K_CONFIG_CHANGED = (long)(CONFIG_CHANGED);
#endif
#ifdef CONFIG_CREATED
const long K_CONFIG_CREATED = (long)(CONFIG_CREATED);
#endif
#ifdef CONFIG_DELETED
const long K_CONFIG_DELETED = (long)(CONFIG_DELETED);
#endif
#ifdef CONFIG_REJECTED
const long K_CONFIG_REJECTED = (long)(CONFIG_REJECTED);
#endif
#ifdef CONFIG_TIMESTAMP
const long K_CONFIG_TIMESTAMP = (long)(CONFIG_TIMESTAMP);
#endif
#ifdef CONF_AUTOCONNECT
const long K_CONF_AUTOCONNECT = (long)(CONF_AUTOCONNECT);
#endif
#ifdef CONF_CLIENT
const long K_CONF_CLIENT = (long)(CONF_CLIENT);
#endif
#ifdef CONF_CLIENT_MASK
const long K_CONF_CLIENT_MASK = (long)(CONF_CLIENT_MASK);
#endif
#ifdef CONF_CONNECT_TLS
const long K_CONF_CONNECT_TLS = (long)(CONF_CONNECT_TLS);
#endif
#ifdef CONF_ILLEGAL
const long K_CONF_ILLEGAL = (long)(CONF_ILLEGAL);
#endif
#ifdef CONF_OPERATOR
const long K_CONF_OPERATOR = (long)(CONF_OPERATOR);
#endif
#ifdef CONF_PORT_TLS
const long K_CONF_PORT_TLS = (long)(CONF_PORT_TLS);
#endif
#ifdef CONF_SERVER
const long K_CONF_SERVER = (long)(CONF_SERVER);
#endif
#ifdef CONF_UWORLD
const long K_CONF_UWORLD = (long)(CONF_UWORLD);
#endif
#ifdef CONF_UWORLD_OPER
const long K_CONF_UWORLD_OPER = (long)(CONF_UWORLD_OPER);
#endif
#ifdef CONNECTION_MAGIC
const long K_CONNECTION_MAGIC = (long)(CONNECTION_MAGIC);
#endif
#ifdef CPTR_KILLED
const long K_CPTR_KILLED = (long)(CPTR_KILLED);
#endif
#ifdef C_IN
const long K_C_IN = (long)(C_IN);
#endif
#ifdef DEBUG_DEBUG
const long K_DEBUG_DEBUG = (long)(DEBUG_DEBUG);
#endif
#ifdef DEBUG_DNS
const long K_DEBUG_DNS = (long)(DEBUG_DNS);
#endif
#ifdef DEBUG_ENGINE
const long K_DEBUG_ENGINE = (long)(DEBUG_ENGINE);
#endif
#ifdef DEBUG_ERROR
const long K_DEBUG_ERROR = (long)(DEBUG_ERROR);
#endif
#ifdef DEBUG_FATAL
const long K_DEBUG_FATAL = (long)(DEBUG_FATAL);
#endif
#ifdef DEBUG_INFO
const long K_DEBUG_INFO = (long)(DEBUG_INFO);
#endif
#ifdef DEBUG_LIST
const long K_DEBUG_LIST = (long)(DEBUG_LIST);
#endif
#ifdef DEBUG_MALLOC
const long K_DEBUG_MALLOC = (long)(DEBUG_MALLOC);
#endif
#ifdef DEBUG_NOTICE
const long K_DEBUG_NOTICE = (long)(DEBUG_NOTICE);
#endif
#ifdef DEBUG_SEND
const long K_DEBUG_SEND = (long)(DEBUG_SEND);
#endif
#ifdef DENY_FLAGS_FILE
const long K_DENY_FLAGS_FILE = (long)(DENY_FLAGS_FILE);
#endif
#ifdef ERR_ALREADYREGISTRED
const long K_ERR_ALREADYREGISTRED = (long)(ERR_ALREADYREGISTRED);
#endif
#ifdef ERR_BADCHANMASK
const long K_ERR_BADCHANMASK = (long)(ERR_BADCHANMASK);
#endif
#ifdef ERR_BADCHANNAME
const long K_ERR_BADCHANNAME = (long)(ERR_BADCHANNAME);
#endif
#ifdef ERR_BADCHANNELKEY
const long K_ERR_BADCHANNELKEY = (long)(ERR_BADCHANNELKEY);
#endif
#ifdef ERR_BADEXPIRE
const long K_ERR_BADEXPIRE = (long)(ERR_BADEXPIRE);
#endif
#ifdef ERR_BADFEATVALUE
const long K_ERR_BADFEATVALUE = (long)(ERR_BADFEATVALUE);
#endif
#ifdef ERR_BADLOGSYS
const long K_ERR_BADLOGSYS = (long)(ERR_BADLOGSYS);
#endif
#ifdef ERR_BADLOGTYPE
const long K_ERR_BADLOGTYPE = (long)(ERR_BADLOGTYPE);
#endif
#ifdef ERR_BADLOGVALUE
const long K_ERR_BADLOGVALUE = (long)(ERR_BADLOGVALUE);
#endif
#ifdef ERR_BADPING
const long K_ERR_BADPING = (long)(ERR_BADPING);
#endif
#ifdef ERR_BANLISTFULL
const long K_ERR_BANLISTFULL = (long)(ERR_BANLISTFULL);
#endif
#ifdef ERR_BANNEDFROMCHAN
const long K_ERR_BANNEDFROMCHAN = (long)(ERR_BANNEDFROMCHAN);
#endif
#ifdef ERR_BANNICKCHANGE
const long K_ERR_BANNICKCHANGE = (long)(ERR_BANNICKCHANGE);
#endif
#ifdef ERR_CANNOTSENDTOCHAN
const long K_ERR_CANNOTSENDTOCHAN = (long)(ERR_CANNOTSENDTOCHAN);
#endif
#ifdef ERR_CANTKILLSERVER
const long K_ERR_CANTKILLSERVER = (long)(ERR_CANTKILLSERVER);
#endif
#ifdef ERR_CHANNELISFULL
const long K_ERR_CHANNELISFULL = (long)(ERR_CHANNELISFULL);
#endif
#ifdef ERR_CHANOPRIVSNEEDED
const long K_ERR_CHANOPRIVSNEEDED = (long)(ERR_CHANOPRIVSNEEDED);
#endif
#ifdef ERR_CHANSECURED
const long K_ERR_CHANSECURED = (long)(ERR_CHANSECURED);
#endif
#ifdef ERR_DISABLED
const long K_ERR_DISABLED = (long)(ERR_DISABLED);
#endif
#ifdef ERR_DONTCHEAT
const long K_ERR_DONTCHEAT = (long)(ERR_DONTCHEAT);
#endif
#ifdef ERR_ERRONEUSNICKNAME
const long K_ERR_ERRONEUSNICKNAME = (long)(ERR_ERRONEUSNICKNAME);
#endif
#ifdef ERR_INPUTTOOLONG
const long K_ERR_INPUTTOOLONG = (long)(ERR_INPUTTOOLONG);
#endif
#ifdef ERR_INVALIDKEY
const long K_ERR_INVALIDKEY = (long)(ERR_INVALIDKEY);
#endif
#ifdef ERR_INVALIDUSERNAME
const long K_ERR_INVALIDUSERNAME = (long)(ERR_INVALIDUSERNAME);
#endif
#ifdef ERR_INVITEONLYCHAN
const long K_ERR_INVITEONLYCHAN = (long)(ERR_INVITEONLYCHAN);
#endif
#ifdef ERR_ISCHANSERVICE
const long K_ERR_ISCHANSERVICE = (long)(ERR_ISCHANSERVICE);
#endif
#ifdef ERR_ISOPERLCHAN
const long K_ERR_ISOPERLCHAN = (long)(ERR_ISOPERLCHAN);
#endif
#ifdef ERR_KEYSET
const long K_ERR_KEYSET = (long)(ERR_KEYSET);
#endif
#ifdef ERR_LASTERROR
const long K_ERR_LASTERROR = (long)(ERR_LASTERROR);
#endif
#ifdef ERR_LONGMASK
const long K_ERR_LONGMASK = (long)(ERR_LONGMASK);
#endif
#ifdef ERR_MASKTOOWIDE
const long K_ERR_MASKTOOWIDE = (long)(ERR_MASKTOOWIDE);
#endif
#ifdef ERR_NEEDMOREPARAMS
const long K_ERR_NEEDMOREPARAMS = (long)(ERR_NEEDMOREPARAMS);
#endif
#ifdef ERR_NEEDREGGEDNICK
const long K_ERR_NEEDREGGEDNICK = (long)(ERR_NEEDREGGEDNICK);
#endif
#ifdef ERR_NICKCOLLISION
const long K_ERR_NICKCOLLISION = (long)(ERR_NICKCOLLISION);
#endif
#ifdef ERR_NICKNAMEINUSE
const long K_ERR_NICKNAMEINUSE = (long)(ERR_NICKNAMEINUSE);
#endif
#ifdef ERR_NICKTOOFAST
const long K_ERR_NICKTOOFAST = (long)(ERR_NICKTOOFAST);
#endif
#ifdef ERR_NOADMININFO
const long K_ERR_NOADMININFO = (long)(ERR_NOADMININFO);
#endif
#ifdef ERR_NOFEATURE
const long K_ERR_NOFEATURE = (long)(ERR_NOFEATURE);
#endif
#ifdef ERR_NOMANAGER
const long K_ERR_NOMANAGER = (long)(ERR_NOMANAGER);
#endif
#ifdef ERR_NOMOTD
const long K_ERR_NOMOTD = (long)(ERR_NOMOTD);
#endif
#ifdef ERR_NONICKNAMEGIVEN
const long K_ERR_NONICKNAMEGIVEN = (long)(ERR_NONICKNAMEGIVEN);
#endif
#ifdef ERR_NOOPERHOST
const long K_ERR_NOOPERHOST = (long)(ERR_NOOPERHOST);
#endif
#ifdef ERR_NOORIGIN
const long K_ERR_NOORIGIN = (long)(ERR_NOORIGIN);
#endif
#ifdef ERR_NOPERMFORHOST
const long K_ERR_NOPERMFORHOST = (long)(ERR_NOPERMFORHOST);
#endif
#ifdef ERR_NOPRIVILEGES
const long K_ERR_NOPRIVILEGES = (long)(ERR_NOPRIVILEGES);
#endif
#ifdef ERR_NORECIPIENT
const long K_ERR_NORECIPIENT = (long)(ERR_NORECIPIENT);
#endif
#ifdef ERR_NOSUCHCHANNEL
const long K_ERR_NOSUCHCHANNEL = (long)(ERR_NOSUCHCHANNEL);
#endif
#ifdef ERR_NOSUCHGLINE
const long K_ERR_NOSUCHGLINE = (long)(ERR_NOSUCHGLINE);
#endif
#ifdef ERR_NOSUCHJUPE
const long K_ERR_NOSUCHJUPE = (long)(ERR_NOSUCHJUPE);
#endif
#ifdef ERR_NOSUCHNICK
const long K_ERR_NOSUCHNICK = (long)(ERR_NOSUCHNICK);
#endif
#ifdef ERR_NOSUCHSERVER
const long K_ERR_NOSUCHSERVER = (long)(ERR_NOSUCHSERVER);
#endif
#ifdef ERR_NOTEXTTOSEND
const long K_ERR_NOTEXTTOSEND = (long)(ERR_NOTEXTTOSEND);
#endif
#ifdef ERR_NOTLOWEROPLEVEL
const long K_ERR_NOTLOWEROPLEVEL = (long)(ERR_NOTLOWEROPLEVEL);
#endif
#ifdef ERR_NOTMANAGER
const long K_ERR_NOTMANAGER = (long)(ERR_NOTMANAGER);
#endif
#ifdef ERR_NOTONCHANNEL
const long K_ERR_NOTONCHANNEL = (long)(ERR_NOTONCHANNEL);
#endif
#ifdef ERR_NOTOPLEVEL
const long K_ERR_NOTOPLEVEL = (long)(ERR_NOTOPLEVEL);
#endif
#ifdef ERR_NOTREGISTERED
const long K_ERR_NOTREGISTERED = (long)(ERR_NOTREGISTERED);
#endif
#ifdef ERR_PASSWDMISMATCH
const long K_ERR_PASSWDMISMATCH = (long)(ERR_PASSWDMISMATCH);
#endif
#ifdef ERR_QUARANTINED
const long K_ERR_QUARANTINED = (long)(ERR_QUARANTINED);
#endif
#ifdef ERR_QUERYTOOLONG
const long K_ERR_QUERYTOOLONG = (long)(ERR_QUERYTOOLONG);
#endif
#ifdef ERR_SASLABORTED
const long K_ERR_SASLABORTED = (long)(ERR_SASLABORTED);
#endif
#ifdef ERR_SASLALREADY
const long K_ERR_SASLALREADY = (long)(ERR_SASLALREADY);
#endif
#ifdef ERR_SASLFAIL
const long K_ERR_SASLFAIL = (long)(ERR_SASLFAIL);
#endif
#ifdef ERR_SASLTOOLONG
const long K_ERR_SASLTOOLONG = (long)(ERR_SASLTOOLONG);
#endif
#ifdef ERR_SERVICESDOWN
const long K_ERR_SERVICESDOWN = (long)(ERR_SERVICESDOWN);
#endif
#ifdef ERR_SILELISTFULL
const long K_ERR_SILELISTFULL = (long)(ERR_SILELISTFULL);
#endif
#ifdef ERR_TARGETTOOFAST
const long K_ERR_TARGETTOOFAST = (long)(ERR_TARGETTOOFAST);
#endif
#ifdef ERR_TLSCLIFINGERPRINT
const long K_ERR_TLSCLIFINGERPRINT = (long)(ERR_TLSCLIFINGERPRINT);
#endif
#ifdef ERR_TLSONLYCHAN
const long K_ERR_TLSONLYCHAN = (long)(ERR_TLSONLYCHAN);
#endif
#ifdef ERR_TOOMANYCHANNELS
const long K_ERR_TOOMANYCHANNELS = (long)(ERR_TOOMANYCHANNELS);
#endif
#ifdef ERR_TOOMANYTARGETS
const long K_ERR_TOOMANYTARGETS = (long)(ERR_TOOMANYTARGETS);
#endif
#ifdef ERR_TOOMANYUSERS
const long K_ERR_TOOMANYUSERS = (long)(ERR_TOOMANYUSERS);
#endif
#ifdef ERR_UMODEUNKNOWNFLAG
const long K_ERR_UMODEUNKNOWNFLAG = (long)(ERR_UMODEUNKNOWNFLAG);
#endif
#ifdef ERR_UNKNOWNCAPCMD
const long K_ERR_UNKNOWNCAPCMD = (long)(ERR_UNKNOWNCAPCMD);
#endif
#ifdef ERR_UNKNOWNCOMMAND
const long K_ERR_UNKNOWNCOMMAND = (long)(ERR_UNKNOWNCOMMAND);
#endif
#ifdef ERR_UNKNOWNMODE
const long K_ERR_UNKNOWNMODE = (long)(ERR_UNKNOWNMODE);
#endif
#ifdef ERR_UPASSNOTSET
const long K_ERR_UPASSNOTSET = (long)(ERR_UPASSNOTSET);
#endif
#ifdef ERR_UPASSSET
const long K_ERR_UPASSSET = (long)(ERR_UPASSSET);
#endif
#ifdef ERR_UPASS_SAME_APASS
const long K_ERR_UPASS_SAME_APASS = (long)(ERR_UPASS_SAME_APASS);
#endif
#ifdef ERR_USERNOTINCHANNEL
const long K_ERR_USERNOTINCHANNEL = (long)(ERR_USERNOTINCHANNEL);
#endif
#ifdef ERR_USERONCHANNEL
const long K_ERR_USERONCHANNEL = (long)(ERR_USERONCHANNEL);
#endif
#ifdef ERR_USERSDONTMATCH
const long K_ERR_USERSDONTMATCH = (long)(ERR_USERSDONTMATCH);
#endif
#ifdef ERR_VOICENEEDED
const long K_ERR_VOICENEEDED = (long)(ERR_VOICENEEDED);
#endif
#ifdef ERR_WASNOSUCHNICK
const long K_ERR_WASNOSUCHNICK = (long)(ERR_WASNOSUCHNICK);
#endif
#ifdef ERR_WILDTOPLEVEL
const long K_ERR_WILDTOPLEVEL = (long)(ERR_WILDTOPLEVEL);
#endif
#ifdef ERR_YOUREBANNEDCREEP
const long K_ERR_YOUREBANNEDCREEP = (long)(ERR_YOUREBANNEDCREEP);
#endif
#ifdef ERR_YOUWILLBEBANNED
const long K_ERR_YOUWILLBEBANNED = (long)(ERR_YOUWILLBEBANNED);
#endif
#ifdef FEATURES1
const long K_FEATURES1 = (long)(FEATURES1);
#endif
#ifdef FEATURES2
const long K_FEATURES2 = (long)(FEATURES2);
#endif
#ifdef FLAGSET_NBITS
const long K_FLAGSET_NBITS = (long)(FLAGSET_NBITS);
#endif
#ifdef FREEFLAG_SOCKET
const long K_FREEFLAG_SOCKET = (long)(FREEFLAG_SOCKET);
#endif
#ifdef FREEFLAG_TIMER
const long K_FREEFLAG_TIMER = (long)(FREEFLAG_TIMER);
#endif
#ifdef GEN_ACTIVE
const long K_GEN_ACTIVE = (long)(GEN_ACTIVE);
#endif
#ifdef GEN_DESTROY
const long K_GEN_DESTROY = (long)(GEN_DESTROY);
#endif
#ifdef GEN_ERROR
const long K_GEN_ERROR = (long)(GEN_ERROR);
#endif
#ifdef GEN_MARKED
const long K_GEN_MARKED = (long)(GEN_MARKED);
#endif
#ifdef GEN_READD
const long K_GEN_READD = (long)(GEN_READD);
#endif
#ifdef GLINE_ACTIVE
const long K_GLINE_ACTIVE = (long)(GLINE_ACTIVE);
#endif
#ifdef GLINE_ACTMASK
const long K_GLINE_ACTMASK = (long)(GLINE_ACTMASK);
#endif
#ifdef GLINE_ANY
const long K_GLINE_ANY = (long)(GLINE_ANY);
#endif
#ifdef GLINE_BADCHAN
const long K_GLINE_BADCHAN = (long)(GLINE_BADCHAN);
#endif
#ifdef GLINE_EXACT
const long K_GLINE_EXACT = (long)(GLINE_EXACT);
#endif
#ifdef GLINE_EXPIRE
const long K_GLINE_EXPIRE = (long)(GLINE_EXPIRE);
#endif
#ifdef GLINE_FORCE
const long K_GLINE_FORCE = (long)(GLINE_FORCE);
#endif
#ifdef GLINE_GLOBAL
const long K_GLINE_GLOBAL = (long)(GLINE_GLOBAL);
#endif
#ifdef GLINE_IPMASK
const long K_GLINE_IPMASK = (long)(GLINE_IPMASK);
#endif
#ifdef GLINE_LASTMOD
const long K_GLINE_LASTMOD = (long)(GLINE_LASTMOD);
#endif
#ifdef GLINE_LDEACT
const long K_GLINE_LDEACT = (long)(GLINE_LDEACT);
#endif
#ifdef GLINE_LIFETIME
const long K_GLINE_LIFETIME = (long)(GLINE_LIFETIME);
#endif
#ifdef GLINE_LOCAL
const long K_GLINE_LOCAL = (long)(GLINE_LOCAL);
#endif
#ifdef GLINE_MASK
const long K_GLINE_MASK = (long)(GLINE_MASK);
#endif
#ifdef GLINE_MAX_EXPIRE
const long K_GLINE_MAX_EXPIRE = (long)(GLINE_MAX_EXPIRE);
#endif
#ifdef GLINE_OPERFORCE
const long K_GLINE_OPERFORCE = (long)(GLINE_OPERFORCE);
#endif
#ifdef GLINE_REALNAME
const long K_GLINE_REALNAME = (long)(GLINE_REALNAME);
#endif
#ifdef GLINE_REASON
const long K_GLINE_REASON = (long)(GLINE_REASON);
#endif
#ifdef GLINE_UPDATE
const long K_GLINE_UPDATE = (long)(GLINE_UPDATE);
#endif
#ifdef HASHSIZE
const long K_HASHSIZE = (long)(HASHSIZE);
#endif
#ifdef HFIXEDSZ
const long K_HFIXEDSZ = (long)(HFIXEDSZ);
#endif
#ifdef HIDE_IP
const long K_HIDE_IP = (long)(HIDE_IP);
#endif
#ifdef HOSTLEN
const long K_HOSTLEN = (long)(HOSTLEN);
#endif
#ifdef HUNTED_ISME
const long K_HUNTED_ISME = (long)(HUNTED_ISME);
#endif
#ifdef HUNTED_NOSUCH
const long K_HUNTED_NOSUCH = (long)(HUNTED_NOSUCH);
#endif
#ifdef HUNTED_PASS
const long K_HUNTED_PASS = (long)(HUNTED_PASS);
#endif
#ifdef IRCD_MAXNS
const long K_IRCD_MAXNS = (long)(IRCD_MAXNS);
#endif
#ifdef JOINBUF_TYPE_CREATE
const long K_JOINBUF_TYPE_CREATE = (long)(JOINBUF_TYPE_CREATE);
#endif
#ifdef JOINBUF_TYPE_JOIN
const long K_JOINBUF_TYPE_JOIN = (long)(JOINBUF_TYPE_JOIN);
#endif
#ifdef JOINBUF_TYPE_PART
const long K_JOINBUF_TYPE_PART = (long)(JOINBUF_TYPE_PART);
#endif
#ifdef JOINBUF_TYPE_PARTALL
const long K_JOINBUF_TYPE_PARTALL = (long)(JOINBUF_TYPE_PARTALL);
#endif
#ifdef JUPE_ACTIVE
const long K_JUPE_ACTIVE = (long)(JUPE_ACTIVE);
#endif
#ifdef JUPE_ACTMASK
const long K_JUPE_ACTMASK = (long)(JUPE_ACTMASK);
#endif
#ifdef JUPE_LDEACT
const long K_JUPE_LDEACT = (long)(JUPE_LDEACT);
#endif
#ifdef JUPE_LOCAL
const long K_JUPE_LOCAL = (long)(JUPE_LOCAL);
#endif
#ifdef JUPE_MASK
const long K_JUPE_MASK = (long)(JUPE_MASK);
#endif
#ifdef JUPE_MAX_EXPIRE
const long K_JUPE_MAX_EXPIRE = (long)(JUPE_MAX_EXPIRE);
#endif
#ifdef KEYLEN
const long K_KEYLEN = (long)(KEYLEN);
#endif
#ifdef LISTARG_NEGATEWILDCARD
const long K_LISTARG_NEGATEWILDCARD = (long)(LISTARG_NEGATEWILDCARD);
#endif
#ifdef LISTARG_SHOWMODES
const long K_LISTARG_SHOWMODES = (long)(LISTARG_SHOWMODES);
#endif
#ifdef LISTARG_SHOWSECRET
const long K_LISTARG_SHOWSECRET = (long)(LISTARG_SHOWSECRET);
#endif
#ifdef LISTARG_TOPICLIMITS
const long K_LISTARG_TOPICLIMITS = (long)(LISTARG_TOPICLIMITS);
#endif
#ifdef LISTENER_TLS_SYSTEMCA_DEFAULT
const long K_LISTENER_TLS_SYSTEMCA_DEFAULT = (long)(LISTENER_TLS_SYSTEMCA_DEFAULT);
#endif
#ifdef LOGFILE
const long K_LOGFILE = (long)(LOGFILE);
#endif
#ifdef LOG_NOFILELOG
const long K_LOG_NOFILELOG = (long)(LOG_NOFILELOG);
#endif
#ifdef LOG_NOMASK
const long K_LOG_NOMASK = (long)(LOG_NOMASK);
#endif
#ifdef LOG_NOSNOTICE
const long K_LOG_NOSNOTICE = (long)(LOG_NOSNOTICE);
#endif
#ifdef LOG_NOSYSLOG
const long K_LOG_NOSYSLOG = (long)(LOG_NOSYSLOG);
#endif
#ifdef MATCH_HOST
const long K_MATCH_HOST = (long)(MATCH_HOST);
#endif
#ifdef MATCH_SERVER
const long K_MATCH_SERVER = (long)(MATCH_SERVER);
#endif
#ifdef MAXCLIENTS
const long K_MAXCLIENTS = (long)(MAXCLIENTS);
#endif
#ifdef MAXJOINARGS
const long K_MAXJOINARGS = (long)(MAXJOINARGS);
#endif
#ifdef MAXMODEPARAMS
const long K_MAXMODEPARAMS = (long)(MAXMODEPARAMS);
#endif
#ifdef MAXOPLEVEL
const long K_MAXOPLEVEL = (long)(MAXOPLEVEL);
#endif
#ifdef MAXOPLEVELDIGITS
const long K_MAXOPLEVELDIGITS = (long)(MAXOPLEVELDIGITS);
#endif
#ifdef MAXPARA
const long K_MAXPARA = (long)(MAXPARA);
#endif
#ifdef MAXTARGETS
const long K_MAXTARGETS = (long)(MAXTARGETS);
#endif
#ifdef MAX_SUB
const long K_MAX_SUB = (long)(MAX_SUB);
#endif
#ifdef MAX_WHOIS_LINES
const long K_MAX_WHOIS_LINES = (long)(MAX_WHOIS_LINES);
#endif
#ifdef MFLG_EXTRA
const long K_MFLG_EXTRA = (long)(MFLG_EXTRA);
#endif
#ifdef MFLG_IGNORE
const long K_MFLG_IGNORE = (long)(MFLG_IGNORE);
#endif
#ifdef MFLG_SLOW
const long K_MFLG_SLOW = (long)(MFLG_SLOW);
#endif
#ifdef MFLG_UNREG
const long K_MFLG_UNREG = (long)(MFLG_UNREG);
#endif
#ifdef MINOR_PROTOCOL
const long K_MINOR_PROTOCOL = (long)(MINOR_PROTOCOL);
#endif
#ifdef MODEBUFLEN
const long K_MODEBUFLEN = (long)(MODEBUFLEN);
#endif
#ifdef MODEBUF_DEST_BOUNCE
const long K_MODEBUF_DEST_BOUNCE = (long)(MODEBUF_DEST_BOUNCE);
#endif
#ifdef MODEBUF_DEST_CHANNEL
const long K_MODEBUF_DEST_CHANNEL = (long)(MODEBUF_DEST_CHANNEL);
#endif
#ifdef MODEBUF_DEST_DEOP
const long K_MODEBUF_DEST_DEOP = (long)(MODEBUF_DEST_DEOP);
#endif
#ifdef MODEBUF_DEST_HACK2
const long K_MODEBUF_DEST_HACK2 = (long)(MODEBUF_DEST_HACK2);
#endif
#ifdef MODEBUF_DEST_HACK3
const long K_MODEBUF_DEST_HACK3 = (long)(MODEBUF_DEST_HACK3);
#endif
#ifdef MODEBUF_DEST_HACK4
const long K_MODEBUF_DEST_HACK4 = (long)(MODEBUF_DEST_HACK4);
#endif
#ifdef MODEBUF_DEST_LOG
const long K_MODEBUF_DEST_LOG = (long)(MODEBUF_DEST_LOG);
#endif
#ifdef MODEBUF_DEST_NOKEY
const long K_MODEBUF_DEST_NOKEY = (long)(MODEBUF_DEST_NOKEY);
#endif
#ifdef MODEBUF_DEST_OPMODE
const long K_MODEBUF_DEST_OPMODE = (long)(MODEBUF_DEST_OPMODE);
#endif
#ifdef MODEBUF_DEST_SERVER
const long K_MODEBUF_DEST_SERVER = (long)(MODEBUF_DEST_SERVER);
#endif
#ifdef MODE_ADD
const long K_MODE_ADD = (long)(MODE_ADD);
#endif
#ifdef MODE_APASS
const long K_MODE_APASS = (long)(MODE_APASS);
#endif
#ifdef MODE_BAN
const long K_MODE_BAN = (long)(MODE_BAN);
#endif
#ifdef MODE_BURSTADDED
const long K_MODE_BURSTADDED = (long)(MODE_BURSTADDED);
#endif
#ifdef MODE_CHANOP
const long K_MODE_CHANOP = (long)(MODE_CHANOP);
#endif
#ifdef MODE_DEL
const long K_MODE_DEL = (long)(MODE_DEL);
#endif
#ifdef MODE_DELJOINS
const long K_MODE_DELJOINS = (long)(MODE_DELJOINS);
#endif
#ifdef MODE_FREE
const long K_MODE_FREE = (long)(MODE_FREE);
#endif
#ifdef MODE_INVITEONLY
const long K_MODE_INVITEONLY = (long)(MODE_INVITEONLY);
#endif
#ifdef MODE_KEY
const long K_MODE_KEY = (long)(MODE_KEY);
#endif
#ifdef MODE_LIMIT
const long K_MODE_LIMIT = (long)(MODE_LIMIT);
#endif
#ifdef MODE_MODERATED
const long K_MODE_MODERATED = (long)(MODE_MODERATED);
#endif
#ifdef MODE_MODERATENOREG
const long K_MODE_MODERATENOREG = (long)(MODE_MODERATENOREG);
#endif
#ifdef MODE_NOCOLOR
const long K_MODE_NOCOLOR = (long)(MODE_NOCOLOR);
#endif
#ifdef MODE_NOCTCP
const long K_MODE_NOCTCP = (long)(MODE_NOCTCP);
#endif
#ifdef MODE_NOPARTMSGS
const long K_MODE_NOPARTMSGS = (long)(MODE_NOPARTMSGS);
#endif
#ifdef MODE_NOPRIVMSGS
const long K_MODE_NOPRIVMSGS = (long)(MODE_NOPRIVMSGS);
#endif
#ifdef MODE_NULL
const long K_MODE_NULL = (long)(MODE_NULL);
#endif
#ifdef MODE_PARSE_BOUNCE
const long K_MODE_PARSE_BOUNCE = (long)(MODE_PARSE_BOUNCE);
#endif
#ifdef MODE_PARSE_BURST
const long K_MODE_PARSE_BURST = (long)(MODE_PARSE_BURST);
#endif
#ifdef MODE_PARSE_FORCE
const long K_MODE_PARSE_FORCE = (long)(MODE_PARSE_FORCE);
#endif
#ifdef MODE_PARSE_NOTMEMBER
const long K_MODE_PARSE_NOTMEMBER = (long)(MODE_PARSE_NOTMEMBER);
#endif
#ifdef MODE_PARSE_NOTOPER
const long K_MODE_PARSE_NOTOPER = (long)(MODE_PARSE_NOTOPER);
#endif
#ifdef MODE_PARSE_SET
const long K_MODE_PARSE_SET = (long)(MODE_PARSE_SET);
#endif
#ifdef MODE_PARSE_STRICT
const long K_MODE_PARSE_STRICT = (long)(MODE_PARSE_STRICT);
#endif
#ifdef MODE_PARSE_WIPEOUT
const long K_MODE_PARSE_WIPEOUT = (long)(MODE_PARSE_WIPEOUT);
#endif
#ifdef MODE_PRIVATE
const long K_MODE_PRIVATE = (long)(MODE_PRIVATE);
#endif
#ifdef MODE_REGISTERED
const long K_MODE_REGISTERED = (long)(MODE_REGISTERED);
#endif
#ifdef MODE_REGONLY
const long K_MODE_REGONLY = (long)(MODE_REGONLY);
#endif
#ifdef MODE_SAVE
const long K_MODE_SAVE = (long)(MODE_SAVE);
#endif
#ifdef MODE_SECRET
const long K_MODE_SECRET = (long)(MODE_SECRET);
#endif
#ifdef MODE_TLSINSECURE
const long K_MODE_TLSINSECURE = (long)(MODE_TLSINSECURE);
#endif
#ifdef MODE_TLSONLY
const long K_MODE_TLSONLY = (long)(MODE_TLSONLY);
#endif
#ifdef MODE_TOPICLIMIT
const long K_MODE_TOPICLIMIT = (long)(MODE_TOPICLIMIT);
#endif
#ifdef MODE_UPASS
const long K_MODE_UPASS = (long)(MODE_UPASS);
#endif
#ifdef MODE_VOICE
const long K_MODE_VOICE = (long)(MODE_VOICE);
#endif
#ifdef MODE_WASDELJOINS
const long K_MODE_WASDELJOINS = (long)(MODE_WASDELJOINS);
#endif
#ifdef MODE_WPARAS
const long K_MODE_WPARAS = (long)(MODE_WPARAS);
#endif
#ifdef MOTD_LINESIZE
const long K_MOTD_LINESIZE = (long)(MOTD_LINESIZE);
#endif
#ifdef MOTD_MAXLINES
const long K_MOTD_MAXLINES = (long)(MOTD_MAXLINES);
#endif
#ifdef MOTD_MAXREMOTE
const long K_MOTD_MAXREMOTE = (long)(MOTD_MAXREMOTE);
#endif
#ifdef MSG_ACCOUNT
const long K_MSG_ACCOUNT = (long)(MSG_ACCOUNT);
#endif
#ifdef MSG_ADMIN
const long K_MSG_ADMIN = (long)(MSG_ADMIN);
#endif
#ifdef MSG_ASLL
const long K_MSG_ASLL = (long)(MSG_ASLL);
#endif
#ifdef MSG_AUTHENTICATE
const long K_MSG_AUTHENTICATE = (long)(MSG_AUTHENTICATE);
#endif
#ifdef MSG_AWAY
const long K_MSG_AWAY = (long)(MSG_AWAY);
#endif
#ifdef MSG_BURST
const long K_MSG_BURST = (long)(MSG_BURST);
#endif
#ifdef MSG_CAP
const long K_MSG_CAP = (long)(MSG_CAP);
#endif
#ifdef MSG_CHGHOST
const long K_MSG_CHGHOST = (long)(MSG_CHGHOST);
#endif
#ifdef MSG_CLEARMODE
const long K_MSG_CLEARMODE = (long)(MSG_CLEARMODE);
#endif
#ifdef MSG_CLOSE
const long K_MSG_CLOSE = (long)(MSG_CLOSE);
#endif
#ifdef MSG_CNOTICE
const long K_MSG_CNOTICE = (long)(MSG_CNOTICE);
#endif
#ifdef MSG_CONFIG
const long K_MSG_CONFIG = (long)(MSG_CONFIG);
#endif
#ifdef MSG_CONNECT
const long K_MSG_CONNECT = (long)(MSG_CONNECT);
#endif
#ifdef MSG_CPRIVMSG
const long K_MSG_CPRIVMSG = (long)(MSG_CPRIVMSG);
#endif
#ifdef MSG_CREATE
const long K_MSG_CREATE = (long)(MSG_CREATE);
#endif
#ifdef MSG_DESTRUCT
const long K_MSG_DESTRUCT = (long)(MSG_DESTRUCT);
#endif
#ifdef MSG_DESYNCH
const long K_MSG_DESYNCH = (long)(MSG_DESYNCH);
#endif
#ifdef MSG_DIE
const long K_MSG_DIE = (long)(MSG_DIE);
#endif
#ifdef MSG_DNS
const long K_MSG_DNS = (long)(MSG_DNS);
#endif
#ifdef MSG_END_OF_BURST
const long K_MSG_END_OF_BURST = (long)(MSG_END_OF_BURST);
#endif
#ifdef MSG_END_OF_BURST_ACK
const long K_MSG_END_OF_BURST_ACK = (long)(MSG_END_OF_BURST_ACK);
#endif
#ifdef MSG_ERROR
const long K_MSG_ERROR = (long)(MSG_ERROR);
#endif
#ifdef MSG_GET
const long K_MSG_GET = (long)(MSG_GET);
#endif
#ifdef MSG_GLINE
const long K_MSG_GLINE = (long)(MSG_GLINE);
#endif
#ifdef MSG_HASH
const long K_MSG_HASH = (long)(MSG_HASH);
#endif
#ifdef MSG_HELP
const long K_MSG_HELP = (long)(MSG_HELP);
#endif
#ifdef MSG_INFO
const long K_MSG_INFO = (long)(MSG_INFO);
#endif
#ifdef MSG_INVITE
const long K_MSG_INVITE = (long)(MSG_INVITE);
#endif
#ifdef MSG_ISON
const long K_MSG_ISON = (long)(MSG_ISON);
#endif
#ifdef MSG_JOIN
const long K_MSG_JOIN = (long)(MSG_JOIN);
#endif
#ifdef MSG_JUPE
const long K_MSG_JUPE = (long)(MSG_JUPE);
#endif
#ifdef MSG_KICK
const long K_MSG_KICK = (long)(MSG_KICK);
#endif
#ifdef MSG_KILL
const long K_MSG_KILL = (long)(MSG_KILL);
#endif
#ifdef MSG_LINKS
const long K_MSG_LINKS = (long)(MSG_LINKS);
#endif
#ifdef MSG_LIST
const long K_MSG_LIST = (long)(MSG_LIST);
#endif
#ifdef MSG_LUSERS
const long K_MSG_LUSERS = (long)(MSG_LUSERS);
#endif
#ifdef MSG_MAP
const long K_MSG_MAP = (long)(MSG_MAP);
#endif
#ifdef MSG_MODE
const long K_MSG_MODE = (long)(MSG_MODE);
#endif
#ifdef MSG_MOTD
const long K_MSG_MOTD = (long)(MSG_MOTD);
#endif
#ifdef MSG_NAMES
const long K_MSG_NAMES = (long)(MSG_NAMES);
#endif
#ifdef MSG_NICK
const long K_MSG_NICK = (long)(MSG_NICK);
#endif
#ifdef MSG_NOTICE
const long K_MSG_NOTICE = (long)(MSG_NOTICE);
#endif
#ifdef MSG_OPER
const long K_MSG_OPER = (long)(MSG_OPER);
#endif
#ifdef MSG_OPMODE
const long K_MSG_OPMODE = (long)(MSG_OPMODE);
#endif
#ifdef MSG_PART
const long K_MSG_PART = (long)(MSG_PART);
#endif
#ifdef MSG_PASS
const long K_MSG_PASS = (long)(MSG_PASS);
#endif
#ifdef MSG_PING
const long K_MSG_PING = (long)(MSG_PING);
#endif
#ifdef MSG_PONG
const long K_MSG_PONG = (long)(MSG_PONG);
#endif
#ifdef MSG_POST
const long K_MSG_POST = (long)(MSG_POST);
#endif
#ifdef MSG_PRIVATE
const long K_MSG_PRIVATE = (long)(MSG_PRIVATE);
#endif
#ifdef MSG_PRIVS
const long K_MSG_PRIVS = (long)(MSG_PRIVS);
#endif
#ifdef MSG_PROTO
const long K_MSG_PROTO = (long)(MSG_PROTO);
#endif
#ifdef MSG_QUIT
const long K_MSG_QUIT = (long)(MSG_QUIT);
#endif
#ifdef MSG_REHASH
const long K_MSG_REHASH = (long)(MSG_REHASH);
#endif
#ifdef MSG_RESET
const long K_MSG_RESET = (long)(MSG_RESET);
#endif
#ifdef MSG_RESTART
const long K_MSG_RESTART = (long)(MSG_RESTART);
#endif
#ifdef MSG_RPING
const long K_MSG_RPING = (long)(MSG_RPING);
#endif
#ifdef MSG_RPONG
const long K_MSG_RPONG = (long)(MSG_RPONG);
#endif
#ifdef MSG_SERVER
const long K_MSG_SERVER = (long)(MSG_SERVER);
#endif
#ifdef MSG_SERVLIST
const long K_MSG_SERVLIST = (long)(MSG_SERVLIST);
#endif
#ifdef MSG_SERVSET
const long K_MSG_SERVSET = (long)(MSG_SERVSET);
#endif
#ifdef MSG_SET
const long K_MSG_SET = (long)(MSG_SET);
#endif
#ifdef MSG_SETTIME
const long K_MSG_SETTIME = (long)(MSG_SETTIME);
#endif
#ifdef MSG_SILENCE
const long K_MSG_SILENCE = (long)(MSG_SILENCE);
#endif
#ifdef MSG_SLINE
const long K_MSG_SLINE = (long)(MSG_SLINE);
#endif
#ifdef MSG_SQUERY
const long K_MSG_SQUERY = (long)(MSG_SQUERY);
#endif
#ifdef MSG_SQUIT
const long K_MSG_SQUIT = (long)(MSG_SQUIT);
#endif
#ifdef MSG_STATS
const long K_MSG_STATS = (long)(MSG_STATS);
#endif
#ifdef MSG_TAGMSG
const long K_MSG_TAGMSG = (long)(MSG_TAGMSG);
#endif
#ifdef MSG_TIME
const long K_MSG_TIME = (long)(MSG_TIME);
#endif
#ifdef MSG_TOPIC
const long K_MSG_TOPIC = (long)(MSG_TOPIC);
#endif
#ifdef MSG_TRACE
const long K_MSG_TRACE = (long)(MSG_TRACE);
#endif
#ifdef MSG_UPING
const long K_MSG_UPING = (long)(MSG_UPING);
#endif
#ifdef MSG_USER
const long K_MSG_USER = (long)(MSG_USER);
#endif
#ifdef MSG_USERHOST
const long K_MSG_USERHOST = (long)(MSG_USERHOST);
#endif
#ifdef MSG_USERIP
const long K_MSG_USERIP = (long)(MSG_USERIP);
#endif
#ifdef MSG_VERSION
const long K_MSG_VERSION = (long)(MSG_VERSION);
#endif
#ifdef MSG_WALLCHOPS
const long K_MSG_WALLCHOPS = (long)(MSG_WALLCHOPS);
#endif
#ifdef MSG_WALLOPS
const long K_MSG_WALLOPS = (long)(MSG_WALLOPS);
#endif
#ifdef MSG_WALLUSERS
const long K_MSG_WALLUSERS = (long)(MSG_WALLUSERS);
#endif
#ifdef MSG_WALLVOICES
const long K_MSG_WALLVOICES = (long)(MSG_WALLVOICES);
#endif
#ifdef MSG_WEBIRC
const long K_MSG_WEBIRC = (long)(MSG_WEBIRC);
#endif
#ifdef MSG_WHO
const long K_MSG_WHO = (long)(MSG_WHO);
#endif
#ifdef MSG_WHOIS
const long K_MSG_WHOIS = (long)(MSG_WHOIS);
#endif
#ifdef MSG_WHOWAS
const long K_MSG_WHOWAS = (long)(MSG_WHOWAS);
#endif
#ifdef MSG_XQUERY
const long K_MSG_XQUERY = (long)(MSG_XQUERY);
#endif
#ifdef MSG_XREPLY
const long K_MSG_XREPLY = (long)(MSG_XREPLY);
#endif
#ifdef NAMES_ALL
const long K_NAMES_ALL = (long)(NAMES_ALL);
#endif
#ifdef NAMES_DEL
const long K_NAMES_DEL = (long)(NAMES_DEL);
#endif
#ifdef NAMES_EON
const long K_NAMES_EON = (long)(NAMES_EON);
#endif
#ifdef NAMES_VIS
const long K_NAMES_VIS = (long)(NAMES_VIS);
#endif
#ifdef NICKLEN
const long K_NICKLEN = (long)(NICKLEN);
#endif
#ifdef NICK_DELAY
const long K_NICK_DELAY = (long)(NICK_DELAY);
#endif
#ifdef NO_ERRORS
const long K_NO_ERRORS = (long)(NO_ERRORS);
#endif
#ifdef NS_CMPRSFLGS
const long K_NS_CMPRSFLGS = (long)(NS_CMPRSFLGS);
#endif
#ifdef NS_INT16SZ
const long K_NS_INT16SZ = (long)(NS_INT16SZ);
#endif
#ifdef NS_INT32SZ
const long K_NS_INT32SZ = (long)(NS_INT32SZ);
#endif
#ifdef NS_MAXCDNAME
const long K_NS_MAXCDNAME = (long)(NS_MAXCDNAME);
#endif
#ifdef NTL_ALNUM
const long K_NTL_ALNUM = (long)(NTL_ALNUM);
#endif
#ifdef NTL_ALPHA
const long K_NTL_ALPHA = (long)(NTL_ALPHA);
#endif
#ifdef NTL_CHPFX
const long K_NTL_CHPFX = (long)(NTL_CHPFX);
#endif
#ifdef NTL_CNTRL
const long K_NTL_CNTRL = (long)(NTL_CNTRL);
#endif
#ifdef NTL_COMMAND
const long K_NTL_COMMAND = (long)(NTL_COMMAND);
#endif
#ifdef NTL_DIGIT
const long K_NTL_DIGIT = (long)(NTL_DIGIT);
#endif
#ifdef NTL_EOL
const long K_NTL_EOL = (long)(NTL_EOL);
#endif
#ifdef NTL_GRAPH
const long K_NTL_GRAPH = (long)(NTL_GRAPH);
#endif
#ifdef NTL_IRCCH
const long K_NTL_IRCCH = (long)(NTL_IRCCH);
#endif
#ifdef NTL_IRCCL
const long K_NTL_IRCCL = (long)(NTL_IRCCL);
#endif
#ifdef NTL_IRCHN
const long K_NTL_IRCHN = (long)(NTL_IRCHN);
#endif
#ifdef NTL_IRCIP
const long K_NTL_IRCIP = (long)(NTL_IRCIP);
#endif
#ifdef NTL_IRCIP6
const long K_NTL_IRCIP6 = (long)(NTL_IRCIP6);
#endif
#ifdef NTL_IRCNK
const long K_NTL_IRCNK = (long)(NTL_IRCNK);
#endif
#ifdef NTL_IRCUI
const long K_NTL_IRCUI = (long)(NTL_IRCUI);
#endif
#ifdef NTL_LOWER
const long K_NTL_LOWER = (long)(NTL_LOWER);
#endif
#ifdef NTL_PRINT
const long K_NTL_PRINT = (long)(NTL_PRINT);
#endif
#ifdef NTL_PUNCT
const long K_NTL_PUNCT = (long)(NTL_PUNCT);
#endif
#ifdef NTL_SPACE
const long K_NTL_SPACE = (long)(NTL_SPACE);
#endif
#ifdef NTL_UPPER
const long K_NTL_UPPER = (long)(NTL_UPPER);
#endif
#ifdef NUMNICKLEN
const long K_NUMNICKLEN = (long)(NUMNICKLEN);
#endif
#ifdef NXDOMAIN
const long K_NXDOMAIN = (long)(NXDOMAIN);
#endif
#ifdef OLDEST_TS
const long K_OLDEST_TS = (long)(OLDEST_TS);
#endif
#ifdef OUTBOUND_TAG_MAX
const long K_OUTBOUND_TAG_MAX = (long)(OUTBOUND_TAG_MAX);
#endif
#ifdef PASSWDLEN
const long K_PASSWDLEN = (long)(PASSWDLEN);
#endif
#ifdef QFIXEDSZ
const long K_QFIXEDSZ = (long)(QFIXEDSZ);
#endif
#ifdef QUERY
const long K_QUERY = (long)(QUERY);
#endif
#ifdef READBUFSIZE
const long K_READBUFSIZE = (long)(READBUFSIZE);
#endif
#ifdef REALLEN
const long K_REALLEN = (long)(REALLEN);
#endif
#ifdef RESERVEDTARGETS
const long K_RESERVEDTARGETS = (long)(RESERVEDTARGETS);
#endif
#ifdef RPL_ADMINEMAIL
const long K_RPL_ADMINEMAIL = (long)(RPL_ADMINEMAIL);
#endif
#ifdef RPL_ADMINLOC1
const long K_RPL_ADMINLOC1 = (long)(RPL_ADMINLOC1);
#endif
#ifdef RPL_ADMINLOC2
const long K_RPL_ADMINLOC2 = (long)(RPL_ADMINLOC2);
#endif
#ifdef RPL_ADMINME
const long K_RPL_ADMINME = (long)(RPL_ADMINME);
#endif
#ifdef RPL_APASSWARN_CLEAR
const long K_RPL_APASSWARN_CLEAR = (long)(RPL_APASSWARN_CLEAR);
#endif
#ifdef RPL_APASSWARN_SECRET
const long K_RPL_APASSWARN_SECRET = (long)(RPL_APASSWARN_SECRET);
#endif
#ifdef RPL_APASSWARN_SET
const long K_RPL_APASSWARN_SET = (long)(RPL_APASSWARN_SET);
#endif
#ifdef RPL_AWAY
const long K_RPL_AWAY = (long)(RPL_AWAY);
#endif
#ifdef RPL_BANLIST
const long K_RPL_BANLIST = (long)(RPL_BANLIST);
#endif
#ifdef RPL_CHANNELMODEIS
const long K_RPL_CHANNELMODEIS = (long)(RPL_CHANNELMODEIS);
#endif
#ifdef RPL_CLOSEEND
const long K_RPL_CLOSEEND = (long)(RPL_CLOSEEND);
#endif
#ifdef RPL_CLOSING
const long K_RPL_CLOSING = (long)(RPL_CLOSING);
#endif
#ifdef RPL_CREATED
const long K_RPL_CREATED = (long)(RPL_CREATED);
#endif
#ifdef RPL_CREATIONTIME
const long K_RPL_CREATIONTIME = (long)(RPL_CREATIONTIME);
#endif
#ifdef RPL_DELNAMREPLY
const long K_RPL_DELNAMREPLY = (long)(RPL_DELNAMREPLY);
#endif
#ifdef RPL_ENDOFBANLIST
const long K_RPL_ENDOFBANLIST = (long)(RPL_ENDOFBANLIST);
#endif
#ifdef RPL_ENDOFGLIST
const long K_RPL_ENDOFGLIST = (long)(RPL_ENDOFGLIST);
#endif
#ifdef RPL_ENDOFINFO
const long K_RPL_ENDOFINFO = (long)(RPL_ENDOFINFO);
#endif
#ifdef RPL_ENDOFINVITELIST
const long K_RPL_ENDOFINVITELIST = (long)(RPL_ENDOFINVITELIST);
#endif
#ifdef RPL_ENDOFJUPELIST
const long K_RPL_ENDOFJUPELIST = (long)(RPL_ENDOFJUPELIST);
#endif
#ifdef RPL_ENDOFLINKS
const long K_RPL_ENDOFLINKS = (long)(RPL_ENDOFLINKS);
#endif
#ifdef RPL_ENDOFMOTD
const long K_RPL_ENDOFMOTD = (long)(RPL_ENDOFMOTD);
#endif
#ifdef RPL_ENDOFNAMES
const long K_RPL_ENDOFNAMES = (long)(RPL_ENDOFNAMES);
#endif
#ifdef RPL_ENDOFSILELIST
const long K_RPL_ENDOFSILELIST = (long)(RPL_ENDOFSILELIST);
#endif
#ifdef RPL_ENDOFSTATS
const long K_RPL_ENDOFSTATS = (long)(RPL_ENDOFSTATS);
#endif
#ifdef RPL_ENDOFWHO
const long K_RPL_ENDOFWHO = (long)(RPL_ENDOFWHO);
#endif
#ifdef RPL_ENDOFWHOIS
const long K_RPL_ENDOFWHOIS = (long)(RPL_ENDOFWHOIS);
#endif
#ifdef RPL_ENDOFWHOWAS
const long K_RPL_ENDOFWHOWAS = (long)(RPL_ENDOFWHOWAS);
#endif
#ifdef RPL_FEATURE
const long K_RPL_FEATURE = (long)(RPL_FEATURE);
#endif
#ifdef RPL_GLIST
const long K_RPL_GLIST = (long)(RPL_GLIST);
#endif
#ifdef RPL_HOSTHIDDEN
const long K_RPL_HOSTHIDDEN = (long)(RPL_HOSTHIDDEN);
#endif
#ifdef RPL_INFO
const long K_RPL_INFO = (long)(RPL_INFO);
#endif
#ifdef RPL_INVITELIST
const long K_RPL_INVITELIST = (long)(RPL_INVITELIST);
#endif
#ifdef RPL_INVITING
const long K_RPL_INVITING = (long)(RPL_INVITING);
#endif
#ifdef RPL_ISON
const long K_RPL_ISON = (long)(RPL_ISON);
#endif
#ifdef RPL_ISSUEDINVITE
const long K_RPL_ISSUEDINVITE = (long)(RPL_ISSUEDINVITE);
#endif
#ifdef RPL_ISUPPORT
const long K_RPL_ISUPPORT = (long)(RPL_ISUPPORT);
#endif
#ifdef RPL_JUPELIST
const long K_RPL_JUPELIST = (long)(RPL_JUPELIST);
#endif
#ifdef RPL_LINKS
const long K_RPL_LINKS = (long)(RPL_LINKS);
#endif
#ifdef RPL_LIST
const long K_RPL_LIST = (long)(RPL_LIST);
#endif
#ifdef RPL_LISTEND
const long K_RPL_LISTEND = (long)(RPL_LISTEND);
#endif
#ifdef RPL_LISTSTART
const long K_RPL_LISTSTART = (long)(RPL_LISTSTART);
#endif
#ifdef RPL_LISTUSAGE
const long K_RPL_LISTUSAGE = (long)(RPL_LISTUSAGE);
#endif
#ifdef RPL_LOGGEDIN
const long K_RPL_LOGGEDIN = (long)(RPL_LOGGEDIN);
#endif
#ifdef RPL_LUSERCHANNELS
const long K_RPL_LUSERCHANNELS = (long)(RPL_LUSERCHANNELS);
#endif
#ifdef RPL_LUSERCLIENT
const long K_RPL_LUSERCLIENT = (long)(RPL_LUSERCLIENT);
#endif
#ifdef RPL_LUSERME
const long K_RPL_LUSERME = (long)(RPL_LUSERME);
#endif
#ifdef RPL_LUSEROP
const long K_RPL_LUSEROP = (long)(RPL_LUSEROP);
#endif
#ifdef RPL_LUSERUNKNOWN
const long K_RPL_LUSERUNKNOWN = (long)(RPL_LUSERUNKNOWN);
#endif
#ifdef RPL_MAP
const long K_RPL_MAP = (long)(RPL_MAP);
#endif
#ifdef RPL_MAPEND
const long K_RPL_MAPEND = (long)(RPL_MAPEND);
#endif
#ifdef RPL_MAPMORE
const long K_RPL_MAPMORE = (long)(RPL_MAPMORE);
#endif
#ifdef RPL_MOTD
const long K_RPL_MOTD = (long)(RPL_MOTD);
#endif
#ifdef RPL_MOTDSTART
const long K_RPL_MOTDSTART = (long)(RPL_MOTDSTART);
#endif
#ifdef RPL_MYINFO
const long K_RPL_MYINFO = (long)(RPL_MYINFO);
#endif
#ifdef RPL_NAMREPLY
const long K_RPL_NAMREPLY = (long)(RPL_NAMREPLY);
#endif
#ifdef RPL_NOTOPIC
const long K_RPL_NOTOPIC = (long)(RPL_NOTOPIC);
#endif
#ifdef RPL_NOWAWAY
const long K_RPL_NOWAWAY = (long)(RPL_NOWAWAY);
#endif
#ifdef RPL_PRIVS
const long K_RPL_PRIVS = (long)(RPL_PRIVS);
#endif
#ifdef RPL_REHASHING
const long K_RPL_REHASHING = (long)(RPL_REHASHING);
#endif
#ifdef RPL_SASLMECHS
const long K_RPL_SASLMECHS = (long)(RPL_SASLMECHS);
#endif
#ifdef RPL_SASLSUCCESS
const long K_RPL_SASLSUCCESS = (long)(RPL_SASLSUCCESS);
#endif
#ifdef RPL_SILELIST
const long K_RPL_SILELIST = (long)(RPL_SILELIST);
#endif
#ifdef RPL_SNOMASK
const long K_RPL_SNOMASK = (long)(RPL_SNOMASK);
#endif
#ifdef RPL_STATSALINE
const long K_RPL_STATSALINE = (long)(RPL_STATSALINE);
#endif
#ifdef RPL_STATSCLINE
const long K_RPL_STATSCLINE = (long)(RPL_STATSCLINE);
#endif
#ifdef RPL_STATSCOMMANDS
const long K_RPL_STATSCOMMANDS = (long)(RPL_STATSCOMMANDS);
#endif
#ifdef RPL_STATSCONN
const long K_RPL_STATSCONN = (long)(RPL_STATSCONN);
#endif
#ifdef RPL_STATSDEBUG
const long K_RPL_STATSDEBUG = (long)(RPL_STATSDEBUG);
#endif
#ifdef RPL_STATSDLINE
const long K_RPL_STATSDLINE = (long)(RPL_STATSDLINE);
#endif
#ifdef RPL_STATSENGINE
const long K_RPL_STATSENGINE = (long)(RPL_STATSENGINE);
#endif
#ifdef RPL_STATSFLINE
const long K_RPL_STATSFLINE = (long)(RPL_STATSFLINE);
#endif
#ifdef RPL_STATSGLINE
const long K_RPL_STATSGLINE = (long)(RPL_STATSGLINE);
#endif
#ifdef RPL_STATSHLINE
const long K_RPL_STATSHLINE = (long)(RPL_STATSHLINE);
#endif
#ifdef RPL_STATSILINE
const long K_RPL_STATSILINE = (long)(RPL_STATSILINE);
#endif
#ifdef RPL_STATSJLINE
const long K_RPL_STATSJLINE = (long)(RPL_STATSJLINE);
#endif
#ifdef RPL_STATSKLINE
const long K_RPL_STATSKLINE = (long)(RPL_STATSKLINE);
#endif
#ifdef RPL_STATSLINKINFO
const long K_RPL_STATSLINKINFO = (long)(RPL_STATSLINKINFO);
#endif
#ifdef RPL_STATSLLINE
const long K_RPL_STATSLLINE = (long)(RPL_STATSLLINE);
#endif
#ifdef RPL_STATSNLINE
const long K_RPL_STATSNLINE = (long)(RPL_STATSNLINE);
#endif
#ifdef RPL_STATSOLINE
const long K_RPL_STATSOLINE = (long)(RPL_STATSOLINE);
#endif
#ifdef RPL_STATSPLINE
const long K_RPL_STATSPLINE = (long)(RPL_STATSPLINE);
#endif
#ifdef RPL_STATSQLINE
const long K_RPL_STATSQLINE = (long)(RPL_STATSQLINE);
#endif
#ifdef RPL_STATSRLINE
const long K_RPL_STATSRLINE = (long)(RPL_STATSRLINE);
#endif
#ifdef RPL_STATSSLINE
const long K_RPL_STATSSLINE = (long)(RPL_STATSSLINE);
#endif
#ifdef RPL_STATSTLINE
const long K_RPL_STATSTLINE = (long)(RPL_STATSTLINE);
#endif
#ifdef RPL_STATSULINE
const long K_RPL_STATSULINE = (long)(RPL_STATSULINE);
#endif
#ifdef RPL_STATSUPTIME
const long K_RPL_STATSUPTIME = (long)(RPL_STATSUPTIME);
#endif
#ifdef RPL_STATSVERBOSE
const long K_RPL_STATSVERBOSE = (long)(RPL_STATSVERBOSE);
#endif
#ifdef RPL_STATSWLINE
const long K_RPL_STATSWLINE = (long)(RPL_STATSWLINE);
#endif
#ifdef RPL_STATSYLINE
const long K_RPL_STATSYLINE = (long)(RPL_STATSYLINE);
#endif
#ifdef RPL_TIME
const long K_RPL_TIME = (long)(RPL_TIME);
#endif
#ifdef RPL_TOPIC
const long K_RPL_TOPIC = (long)(RPL_TOPIC);
#endif
#ifdef RPL_TOPICWHOTIME
const long K_RPL_TOPICWHOTIME = (long)(RPL_TOPICWHOTIME);
#endif
#ifdef RPL_TRACECLASS
const long K_RPL_TRACECLASS = (long)(RPL_TRACECLASS);
#endif
#ifdef RPL_TRACECONNECTING
const long K_RPL_TRACECONNECTING = (long)(RPL_TRACECONNECTING);
#endif
#ifdef RPL_TRACEEND
const long K_RPL_TRACEEND = (long)(RPL_TRACEEND);
#endif
#ifdef RPL_TRACEHANDSHAKE
const long K_RPL_TRACEHANDSHAKE = (long)(RPL_TRACEHANDSHAKE);
#endif
#ifdef RPL_TRACELINK
const long K_RPL_TRACELINK = (long)(RPL_TRACELINK);
#endif
#ifdef RPL_TRACENEWTYPE
const long K_RPL_TRACENEWTYPE = (long)(RPL_TRACENEWTYPE);
#endif
#ifdef RPL_TRACEOPERATOR
const long K_RPL_TRACEOPERATOR = (long)(RPL_TRACEOPERATOR);
#endif
#ifdef RPL_TRACESERVER
const long K_RPL_TRACESERVER = (long)(RPL_TRACESERVER);
#endif
#ifdef RPL_TRACEUNKNOWN
const long K_RPL_TRACEUNKNOWN = (long)(RPL_TRACEUNKNOWN);
#endif
#ifdef RPL_TRACEUSER
const long K_RPL_TRACEUSER = (long)(RPL_TRACEUSER);
#endif
#ifdef RPL_UMODEIS
const long K_RPL_UMODEIS = (long)(RPL_UMODEIS);
#endif
#ifdef RPL_UNAWAY
const long K_RPL_UNAWAY = (long)(RPL_UNAWAY);
#endif
#ifdef RPL_USERHOST
const long K_RPL_USERHOST = (long)(RPL_USERHOST);
#endif
#ifdef RPL_USERIP
const long K_RPL_USERIP = (long)(RPL_USERIP);
#endif
#ifdef RPL_VERSION
const long K_RPL_VERSION = (long)(RPL_VERSION);
#endif
#ifdef RPL_WELCOME
const long K_RPL_WELCOME = (long)(RPL_WELCOME);
#endif
#ifdef RPL_WHOISACCOUNT
const long K_RPL_WHOISACCOUNT = (long)(RPL_WHOISACCOUNT);
#endif
#ifdef RPL_WHOISACTUALLY
const long K_RPL_WHOISACTUALLY = (long)(RPL_WHOISACTUALLY);
#endif
#ifdef RPL_WHOISCHANNELS
const long K_RPL_WHOISCHANNELS = (long)(RPL_WHOISCHANNELS);
#endif
#ifdef RPL_WHOISIDLE
const long K_RPL_WHOISIDLE = (long)(RPL_WHOISIDLE);
#endif
#ifdef RPL_WHOISOPERATOR
const long K_RPL_WHOISOPERATOR = (long)(RPL_WHOISOPERATOR);
#endif
#ifdef RPL_WHOISSECURE
const long K_RPL_WHOISSECURE = (long)(RPL_WHOISSECURE);
#endif
#ifdef RPL_WHOISSERVER
const long K_RPL_WHOISSERVER = (long)(RPL_WHOISSERVER);
#endif
#ifdef RPL_WHOISUSER
const long K_RPL_WHOISUSER = (long)(RPL_WHOISUSER);
#endif
#ifdef RPL_WHOISWEBIRC
const long K_RPL_WHOISWEBIRC = (long)(RPL_WHOISWEBIRC);
#endif
#ifdef RPL_WHOREPLY
const long K_RPL_WHOREPLY = (long)(RPL_WHOREPLY);
#endif
#ifdef RPL_WHOSPCRPL
const long K_RPL_WHOSPCRPL = (long)(RPL_WHOSPCRPL);
#endif
#ifdef RPL_WHOWASUSER
const long K_RPL_WHOWASUSER = (long)(RPL_WHOWASUSER);
#endif
#ifdef RPL_YOUREOPER
const long K_RPL_YOUREOPER = (long)(RPL_YOUREOPER);
#endif
#ifdef RPL_YOURHOST
const long K_RPL_YOURHOST = (long)(RPL_YOURHOST);
#endif
#ifdef SEND_UMODES
const long K_SEND_UMODES = (long)(SEND_UMODES);
#endif
#ifdef SEND_UMODES_BUT_OPER
const long K_SEND_UMODES_BUT_OPER = (long)(SEND_UMODES_BUT_OPER);
#endif
#ifdef SERVER_TCP_WINDOW
const long K_SERVER_TCP_WINDOW = (long)(SERVER_TCP_WINDOW);
#endif
#ifdef SERVFAIL
const long K_SERVFAIL = (long)(SERVFAIL);
#endif
#ifdef SHA1_DIGEST_LENGTH
const long K_SHA1_DIGEST_LENGTH = (long)(SHA1_DIGEST_LENGTH);
#endif
#ifdef SHOW_IP
const long K_SHOW_IP = (long)(SHOW_IP);
#endif
#ifdef SKIP_BURST
const long K_SKIP_BURST = (long)(SKIP_BURST);
#endif
#ifdef SKIP_DEAF
const long K_SKIP_DEAF = (long)(SKIP_DEAF);
#endif
#ifdef SKIP_NONOPS
const long K_SKIP_NONOPS = (long)(SKIP_NONOPS);
#endif
#ifdef SKIP_NONVOICES
const long K_SKIP_NONVOICES = (long)(SKIP_NONVOICES);
#endif
#ifdef SLINELEN
const long K_SLINELEN = (long)(SLINELEN);
#endif
#ifdef SLINE_ACTIVE
const long K_SLINE_ACTIVE = (long)(SLINE_ACTIVE);
#endif
#ifdef SLINE_ALL
const long K_SLINE_ALL = (long)(SLINE_ALL);
#endif
#ifdef SLINE_CHANNEL
const long K_SLINE_CHANNEL = (long)(SLINE_CHANNEL);
#endif
#ifdef SLINE_EXPIRE
const long K_SLINE_EXPIRE = (long)(SLINE_EXPIRE);
#endif
#ifdef SLINE_INVALID
const long K_SLINE_INVALID = (long)(SLINE_INVALID);
#endif
#ifdef SLINE_MAX_CAPTURES
const long K_SLINE_MAX_CAPTURES = (long)(SLINE_MAX_CAPTURES);
#endif
#ifdef SLINE_MSGTYPE
const long K_SLINE_MSGTYPE = (long)(SLINE_MSGTYPE);
#endif
#ifdef SLINE_PART
const long K_SLINE_PART = (long)(SLINE_PART);
#endif
#ifdef SLINE_PRIVATE
const long K_SLINE_PRIVATE = (long)(SLINE_PRIVATE);
#endif
#ifdef SLINE_QUIT
const long K_SLINE_QUIT = (long)(SLINE_QUIT);
#endif
#ifdef SLINE_STATE
const long K_SLINE_STATE = (long)(SLINE_STATE);
#endif
#ifdef SMAP_FAST
const long K_SMAP_FAST = (long)(SMAP_FAST);
#endif
#ifdef SND_EXPLICIT
const long K_SND_EXPLICIT = (long)(SND_EXPLICIT);
#endif
#ifdef SNO_ADD
const long K_SNO_ADD = (long)(SNO_ADD);
#endif
#ifdef SNO_ALL
const long K_SNO_ALL = (long)(SNO_ALL);
#endif
#ifdef SNO_AUTH
const long K_SNO_AUTH = (long)(SNO_AUTH);
#endif
#ifdef SNO_AUTO
const long K_SNO_AUTO = (long)(SNO_AUTO);
#endif
#ifdef SNO_CONNEXIT
const long K_SNO_CONNEXIT = (long)(SNO_CONNEXIT);
#endif
#ifdef SNO_DEBUG
const long K_SNO_DEBUG = (long)(SNO_DEBUG);
#endif
#ifdef SNO_DEFAULT
const long K_SNO_DEFAULT = (long)(SNO_DEFAULT);
#endif
#ifdef SNO_DEL
const long K_SNO_DEL = (long)(SNO_DEL);
#endif
#ifdef SNO_GLINE
const long K_SNO_GLINE = (long)(SNO_GLINE);
#endif
#ifdef SNO_HACK2
const long K_SNO_HACK2 = (long)(SNO_HACK2);
#endif
#ifdef SNO_HACK3
const long K_SNO_HACK3 = (long)(SNO_HACK3);
#endif
#ifdef SNO_HACK4
const long K_SNO_HACK4 = (long)(SNO_HACK4);
#endif
#ifdef SNO_IPMISMATCH
const long K_SNO_IPMISMATCH = (long)(SNO_IPMISMATCH);
#endif
#ifdef SNO_NETWORK
const long K_SNO_NETWORK = (long)(SNO_NETWORK);
#endif
#ifdef SNO_NOISY
const long K_SNO_NOISY = (long)(SNO_NOISY);
#endif
#ifdef SNO_OLDREALOP
const long K_SNO_OLDREALOP = (long)(SNO_OLDREALOP);
#endif
#ifdef SNO_OLDSNO
const long K_SNO_OLDSNO = (long)(SNO_OLDSNO);
#endif
#ifdef SNO_OPER
const long K_SNO_OPER = (long)(SNO_OPER);
#endif
#ifdef SNO_OPERDEFAULT
const long K_SNO_OPERDEFAULT = (long)(SNO_OPERDEFAULT);
#endif
#ifdef SNO_OPERKILL
const long K_SNO_OPERKILL = (long)(SNO_OPERKILL);
#endif
#ifdef SNO_SERVKILL
const long K_SNO_SERVKILL = (long)(SNO_SERVKILL);
#endif
#ifdef SNO_SET
const long K_SNO_SET = (long)(SNO_SET);
#endif
#ifdef SNO_TCPCOMMON
const long K_SNO_TCPCOMMON = (long)(SNO_TCPCOMMON);
#endif
#ifdef SNO_THROTTLE
const long K_SNO_THROTTLE = (long)(SNO_THROTTLE);
#endif
#ifdef SNO_TOOMANY
const long K_SNO_TOOMANY = (long)(SNO_TOOMANY);
#endif
#ifdef SNO_UNAUTH
const long K_SNO_UNAUTH = (long)(SNO_UNAUTH);
#endif
#ifdef SNO_USER
const long K_SNO_USER = (long)(SNO_USER);
#endif
#ifdef SOCKIPLEN
const long K_SOCKIPLEN = (long)(SOCKIPLEN);
#endif
#ifdef SOCK_ACTION_ADD
const long K_SOCK_ACTION_ADD = (long)(SOCK_ACTION_ADD);
#endif
#ifdef SOCK_ACTION_DEL
const long K_SOCK_ACTION_DEL = (long)(SOCK_ACTION_DEL);
#endif
#ifdef SOCK_ACTION_MASK
const long K_SOCK_ACTION_MASK = (long)(SOCK_ACTION_MASK);
#endif
#ifdef SOCK_ACTION_SET
const long K_SOCK_ACTION_SET = (long)(SOCK_ACTION_SET);
#endif
#ifdef SOCK_EVENT_MASK
const long K_SOCK_EVENT_MASK = (long)(SOCK_EVENT_MASK);
#endif
#ifdef SOCK_EVENT_READABLE
const long K_SOCK_EVENT_READABLE = (long)(SOCK_EVENT_READABLE);
#endif
#ifdef SOCK_EVENT_WRITABLE
const long K_SOCK_EVENT_WRITABLE = (long)(SOCK_EVENT_WRITABLE);
#endif
#ifdef STARTCREATELEN
const long K_STARTCREATELEN = (long)(STARTCREATELEN);
#endif
#ifdef STARTJOINLEN
const long K_STARTJOINLEN = (long)(STARTJOINLEN);
#endif
#ifdef STARTTARGETS
const long K_STARTTARGETS = (long)(STARTTARGETS);
#endif
#ifdef STAT_CONNECTING
const long K_STAT_CONNECTING = (long)(STAT_CONNECTING);
#endif
#ifdef STAT_FLAG_ASYNC
const long K_STAT_FLAG_ASYNC = (long)(STAT_FLAG_ASYNC);
#endif
#ifdef STAT_FLAG_CASESENS
const long K_STAT_FLAG_CASESENS = (long)(STAT_FLAG_CASESENS);
#endif
#ifdef STAT_FLAG_LOCONLY
const long K_STAT_FLAG_LOCONLY = (long)(STAT_FLAG_LOCONLY);
#endif
#ifdef STAT_FLAG_OPERFEAT
const long K_STAT_FLAG_OPERFEAT = (long)(STAT_FLAG_OPERFEAT);
#endif
#ifdef STAT_FLAG_OPERONLY
const long K_STAT_FLAG_OPERONLY = (long)(STAT_FLAG_OPERONLY);
#endif
#ifdef STAT_FLAG_VARPARAM
const long K_STAT_FLAG_VARPARAM = (long)(STAT_FLAG_VARPARAM);
#endif
#ifdef STAT_HANDSHAKE
const long K_STAT_HANDSHAKE = (long)(STAT_HANDSHAKE);
#endif
#ifdef STAT_ME
const long K_STAT_ME = (long)(STAT_ME);
#endif
#ifdef STAT_SERVER
const long K_STAT_SERVER = (long)(STAT_SERVER);
#endif
#ifdef STAT_UNKNOWN
const long K_STAT_UNKNOWN = (long)(STAT_UNKNOWN);
#endif
#ifdef STAT_UNKNOWN_SERVER
const long K_STAT_UNKNOWN_SERVER = (long)(STAT_UNKNOWN_SERVER);
#endif
#ifdef STAT_UNKNOWN_USER
const long K_STAT_UNKNOWN_USER = (long)(STAT_UNKNOWN_USER);
#endif
#ifdef STAT_USER
const long K_STAT_USER = (long)(STAT_USER);
#endif
#ifdef STAT_WEBIRC
const long K_STAT_WEBIRC = (long)(STAT_WEBIRC);
#endif
#ifdef STAT_WEBSOCKET
const long K_STAT_WEBSOCKET = (long)(STAT_WEBSOCKET);
#endif
#ifdef TAGDATA_CLIENT_MAX
const long K_TAGDATA_CLIENT_MAX = (long)(TAGDATA_CLIENT_MAX);
#endif
#ifdef TAGDATA_SERVER_MAX
const long K_TAGDATA_SERVER_MAX = (long)(TAGDATA_SERVER_MAX);
#endif
#ifdef TAGSLEN
const long K_TAGSLEN = (long)(TAGSLEN);
#endif
#ifdef TARGET_DELAY
const long K_TARGET_DELAY = (long)(TARGET_DELAY);
#endif
#ifdef TLS_HANDSHAKE_TIMEOUT
const long K_TLS_HANDSHAKE_TIMEOUT = (long)(TLS_HANDSHAKE_TIMEOUT);
#endif
#ifdef TOK_ACCOUNT
const long K_TOK_ACCOUNT = (long)(TOK_ACCOUNT);
#endif
#ifdef TOK_ADMIN
const long K_TOK_ADMIN = (long)(TOK_ADMIN);
#endif
#ifdef TOK_ASLL
const long K_TOK_ASLL = (long)(TOK_ASLL);
#endif
#ifdef TOK_AUTHENTICATE
const long K_TOK_AUTHENTICATE = (long)(TOK_AUTHENTICATE);
#endif
#ifdef TOK_AWAY
const long K_TOK_AWAY = (long)(TOK_AWAY);
#endif
#ifdef TOK_BURST
const long K_TOK_BURST = (long)(TOK_BURST);
#endif
#ifdef TOK_CAP
const long K_TOK_CAP = (long)(TOK_CAP);
#endif
#ifdef TOK_CHGHOST
const long K_TOK_CHGHOST = (long)(TOK_CHGHOST);
#endif
#ifdef TOK_CLEARMODE
const long K_TOK_CLEARMODE = (long)(TOK_CLEARMODE);
#endif
#ifdef TOK_CLOSE
const long K_TOK_CLOSE = (long)(TOK_CLOSE);
#endif
#ifdef TOK_CNOTICE
const long K_TOK_CNOTICE = (long)(TOK_CNOTICE);
#endif
#ifdef TOK_CONFIG
const long K_TOK_CONFIG = (long)(TOK_CONFIG);
#endif
#ifdef TOK_CONNECT
const long K_TOK_CONNECT = (long)(TOK_CONNECT);
#endif
#ifdef TOK_CPRIVMSG
const long K_TOK_CPRIVMSG = (long)(TOK_CPRIVMSG);
#endif
#ifdef TOK_CREATE
const long K_TOK_CREATE = (long)(TOK_CREATE);
#endif
#ifdef TOK_DESTRUCT
const long K_TOK_DESTRUCT = (long)(TOK_DESTRUCT);
#endif
#ifdef TOK_DESYNCH
const long K_TOK_DESYNCH = (long)(TOK_DESYNCH);
#endif
#ifdef TOK_DIE
const long K_TOK_DIE = (long)(TOK_DIE);
#endif
#ifdef TOK_DNS
const long K_TOK_DNS = (long)(TOK_DNS);
#endif
#ifdef TOK_END_OF_BURST
const long K_TOK_END_OF_BURST = (long)(TOK_END_OF_BURST);
#endif
#ifdef TOK_END_OF_BURST_ACK
const long K_TOK_END_OF_BURST_ACK = (long)(TOK_END_OF_BURST_ACK);
#endif
#ifdef TOK_ERROR
const long K_TOK_ERROR = (long)(TOK_ERROR);
#endif
#ifdef TOK_GET
const long K_TOK_GET = (long)(TOK_GET);
#endif
#ifdef TOK_GLINE
const long K_TOK_GLINE = (long)(TOK_GLINE);
#endif
#ifdef TOK_HASH
const long K_TOK_HASH = (long)(TOK_HASH);
#endif
#ifdef TOK_HELP
const long K_TOK_HELP = (long)(TOK_HELP);
#endif
#ifdef TOK_INFO
const long K_TOK_INFO = (long)(TOK_INFO);
#endif
#ifdef TOK_INVITE
const long K_TOK_INVITE = (long)(TOK_INVITE);
#endif
#ifdef TOK_ISON
const long K_TOK_ISON = (long)(TOK_ISON);
#endif
#ifdef TOK_JOIN
const long K_TOK_JOIN = (long)(TOK_JOIN);
#endif
#ifdef TOK_JUPE
const long K_TOK_JUPE = (long)(TOK_JUPE);
#endif
#ifdef TOK_KICK
const long K_TOK_KICK = (long)(TOK_KICK);
#endif
#ifdef TOK_KILL
const long K_TOK_KILL = (long)(TOK_KILL);
#endif
#ifdef TOK_LINKS
const long K_TOK_LINKS = (long)(TOK_LINKS);
#endif
#ifdef TOK_LIST
const long K_TOK_LIST = (long)(TOK_LIST);
#endif
#ifdef TOK_LUSERS
const long K_TOK_LUSERS = (long)(TOK_LUSERS);
#endif
#ifdef TOK_MAP
const long K_TOK_MAP = (long)(TOK_MAP);
#endif
#ifdef TOK_MODE
const long K_TOK_MODE = (long)(TOK_MODE);
#endif
#ifdef TOK_MOTD
const long K_TOK_MOTD = (long)(TOK_MOTD);
#endif
#ifdef TOK_NAMES
const long K_TOK_NAMES = (long)(TOK_NAMES);
#endif
#ifdef TOK_NICK
const long K_TOK_NICK = (long)(TOK_NICK);
#endif
#ifdef TOK_NOTICE
const long K_TOK_NOTICE = (long)(TOK_NOTICE);
#endif
#ifdef TOK_OPER
const long K_TOK_OPER = (long)(TOK_OPER);
#endif
#ifdef TOK_OPMODE
const long K_TOK_OPMODE = (long)(TOK_OPMODE);
#endif
#ifdef TOK_PART
const long K_TOK_PART = (long)(TOK_PART);
#endif
#ifdef TOK_PASS
const long K_TOK_PASS = (long)(TOK_PASS);
#endif
#ifdef TOK_PING
const long K_TOK_PING = (long)(TOK_PING);
#endif
#ifdef TOK_PONG
const long K_TOK_PONG = (long)(TOK_PONG);
#endif
#ifdef TOK_POST
const long K_TOK_POST = (long)(TOK_POST);
#endif
#ifdef TOK_PRIVATE
const long K_TOK_PRIVATE = (long)(TOK_PRIVATE);
#endif
#ifdef TOK_PRIVS
const long K_TOK_PRIVS = (long)(TOK_PRIVS);
#endif
#ifdef TOK_PROTO
const long K_TOK_PROTO = (long)(TOK_PROTO);
#endif
#ifdef TOK_QUIT
const long K_TOK_QUIT = (long)(TOK_QUIT);
#endif
#ifdef TOK_REHASH
const long K_TOK_REHASH = (long)(TOK_REHASH);
#endif
#ifdef TOK_RESET
const long K_TOK_RESET = (long)(TOK_RESET);
#endif
#ifdef TOK_RESTART
const long K_TOK_RESTART = (long)(TOK_RESTART);
#endif
#ifdef TOK_RPING
const long K_TOK_RPING = (long)(TOK_RPING);
#endif
#ifdef TOK_RPONG
const long K_TOK_RPONG = (long)(TOK_RPONG);
#endif
#ifdef TOK_SERVER
const long K_TOK_SERVER = (long)(TOK_SERVER);
#endif
#ifdef TOK_SERVLIST
const long K_TOK_SERVLIST = (long)(TOK_SERVLIST);
#endif
#ifdef TOK_SERVSET
const long K_TOK_SERVSET = (long)(TOK_SERVSET);
#endif
#ifdef TOK_SET
const long K_TOK_SET = (long)(TOK_SET);
#endif
#ifdef TOK_SETTIME
const long K_TOK_SETTIME = (long)(TOK_SETTIME);
#endif
#ifdef TOK_SILENCE
const long K_TOK_SILENCE = (long)(TOK_SILENCE);
#endif
#ifdef TOK_SLINE
const long K_TOK_SLINE = (long)(TOK_SLINE);
#endif
#ifdef TOK_SQUERY
const long K_TOK_SQUERY = (long)(TOK_SQUERY);
#endif
#ifdef TOK_SQUIT
const long K_TOK_SQUIT = (long)(TOK_SQUIT);
#endif
#ifdef TOK_STATS
const long K_TOK_STATS = (long)(TOK_STATS);
#endif
#ifdef TOK_TAGMSG
const long K_TOK_TAGMSG = (long)(TOK_TAGMSG);
#endif
#ifdef TOK_TIME
const long K_TOK_TIME = (long)(TOK_TIME);
#endif
#ifdef TOK_TOPIC
const long K_TOK_TOPIC = (long)(TOK_TOPIC);
#endif
#ifdef TOK_TRACE
const long K_TOK_TRACE = (long)(TOK_TRACE);
#endif
#ifdef TOK_UPING
const long K_TOK_UPING = (long)(TOK_UPING);
#endif
#ifdef TOK_USER
const long K_TOK_USER = (long)(TOK_USER);
#endif
#ifdef TOK_USERHOST
const long K_TOK_USERHOST = (long)(TOK_USERHOST);
#endif
#ifdef TOK_USERIP
const long K_TOK_USERIP = (long)(TOK_USERIP);
#endif
#ifdef TOK_VERSION
const long K_TOK_VERSION = (long)(TOK_VERSION);
#endif
#ifdef TOK_WALLCHOPS
const long K_TOK_WALLCHOPS = (long)(TOK_WALLCHOPS);
#endif
#ifdef TOK_WALLOPS
const long K_TOK_WALLOPS = (long)(TOK_WALLOPS);
#endif
#ifdef TOK_WALLUSERS
const long K_TOK_WALLUSERS = (long)(TOK_WALLUSERS);
#endif
#ifdef TOK_WALLVOICES
const long K_TOK_WALLVOICES = (long)(TOK_WALLVOICES);
#endif
#ifdef TOK_WEBIRC
const long K_TOK_WEBIRC = (long)(TOK_WEBIRC);
#endif
#ifdef TOK_WHO
const long K_TOK_WHO = (long)(TOK_WHO);
#endif
#ifdef TOK_WHOIS
const long K_TOK_WHOIS = (long)(TOK_WHOIS);
#endif
#ifdef TOK_WHOWAS
const long K_TOK_WHOWAS = (long)(TOK_WHOWAS);
#endif
#ifdef TOK_XQUERY
const long K_TOK_XQUERY = (long)(TOK_XQUERY);
#endif
#ifdef TOK_XREPLY
const long K_TOK_XREPLY = (long)(TOK_XREPLY);
#endif
#ifdef TOPICLEN
const long K_TOPICLEN = (long)(TOPICLEN);
#endif
#ifdef TS_LAG_TIME
const long K_TS_LAG_TIME = (long)(TS_LAG_TIME);
#endif
#ifdef T_A
const long K_T_A = (long)(T_A);
#endif
#ifdef T_AAAA
const long K_T_AAAA = (long)(T_AAAA);
#endif
#ifdef T_CNAME
const long K_T_CNAME = (long)(T_CNAME);
#endif
#ifdef T_PTR
const long K_T_PTR = (long)(T_PTR);
#endif
#ifdef UDP_PORT
const long K_UDP_PORT = (long)(UDP_PORT);
#endif
#ifdef UPING_PENDING_KILLER
const long K_UPING_PENDING_KILLER = (long)(UPING_PENDING_KILLER);
#endif
#ifdef UPING_PENDING_SENDER
const long K_UPING_PENDING_SENDER = (long)(UPING_PENDING_SENDER);
#endif
#ifdef UPING_PENDING_SOCKET
const long K_UPING_PENDING_SOCKET = (long)(UPING_PENDING_SOCKET);
#endif
#ifdef USERLEN
const long K_USERLEN = (long)(USERLEN);
#endif
#ifdef WALL_DESYNCH
const long K_WALL_DESYNCH = (long)(WALL_DESYNCH);
#endif
#ifdef WALL_WALLOPS
const long K_WALL_WALLOPS = (long)(WALL_WALLOPS);
#endif
#ifdef WALL_WALLUSERS
const long K_WALL_WALLUSERS = (long)(WALL_WALLUSERS);
#endif
#ifdef WEBSOCKET_HANDSHAKE_MAX
const long K_WEBSOCKET_HANDSHAKE_MAX = (long)(WEBSOCKET_HANDSHAKE_MAX);
#endif
#ifdef WEBSOCKET_MAX_HEADER
const long K_WEBSOCKET_MAX_HEADER = (long)(WEBSOCKET_MAX_HEADER);
#endif
#ifdef WHOSELECT_DELAY
const long K_WHOSELECT_DELAY = (long)(WHOSELECT_DELAY);
#endif
#ifdef WHOSELECT_EXTRA
const long K_WHOSELECT_EXTRA = (long)(WHOSELECT_EXTRA);
#endif
#ifdef WHOSELECT_OPER
const long K_WHOSELECT_OPER = (long)(WHOSELECT_OPER);
#endif
#ifdef WHO_FIELD_ACC
const long K_WHO_FIELD_ACC = (long)(WHO_FIELD_ACC);
#endif
#ifdef WHO_FIELD_CHA
const long K_WHO_FIELD_CHA = (long)(WHO_FIELD_CHA);
#endif
#ifdef WHO_FIELD_DEF
const long K_WHO_FIELD_DEF = (long)(WHO_FIELD_DEF);
#endif
#ifdef WHO_FIELD_DIS
const long K_WHO_FIELD_DIS = (long)(WHO_FIELD_DIS);
#endif
#ifdef WHO_FIELD_FLA
const long K_WHO_FIELD_FLA = (long)(WHO_FIELD_FLA);
#endif
#ifdef WHO_FIELD_HOS
const long K_WHO_FIELD_HOS = (long)(WHO_FIELD_HOS);
#endif
#ifdef WHO_FIELD_IDL
const long K_WHO_FIELD_IDL = (long)(WHO_FIELD_IDL);
#endif
#ifdef WHO_FIELD_NIC
const long K_WHO_FIELD_NIC = (long)(WHO_FIELD_NIC);
#endif
#ifdef WHO_FIELD_NIP
const long K_WHO_FIELD_NIP = (long)(WHO_FIELD_NIP);
#endif
#ifdef WHO_FIELD_OPL
const long K_WHO_FIELD_OPL = (long)(WHO_FIELD_OPL);
#endif
#ifdef WHO_FIELD_QTY
const long K_WHO_FIELD_QTY = (long)(WHO_FIELD_QTY);
#endif
#ifdef WHO_FIELD_REN
const long K_WHO_FIELD_REN = (long)(WHO_FIELD_REN);
#endif
#ifdef WHO_FIELD_SER
const long K_WHO_FIELD_SER = (long)(WHO_FIELD_SER);
#endif
#ifdef WHO_FIELD_UID
const long K_WHO_FIELD_UID = (long)(WHO_FIELD_UID);
#endif
#ifdef WW_MAX
const long K_WW_MAX = (long)(WW_MAX);
#endif
#ifdef WW_MAX_INITIAL
const long K_WW_MAX_INITIAL = (long)(WW_MAX_INITIAL);
#endif
#ifdef WW_MAX_INITIAL_MASK
const long K_WW_MAX_INITIAL_MASK = (long)(WW_MAX_INITIAL_MASK);
#endif
const long K_ACR_ALREADY_AUTHORIZED = (long)(ACR_ALREADY_AUTHORIZED);
const long K_ACR_BAD_SOCKET = (long)(ACR_BAD_SOCKET);
const long K_ACR_NO_AUTHORIZATION = (long)(ACR_NO_AUTHORIZATION);
const long K_ACR_OK = (long)(ACR_OK);
const long K_ACR_TOO_MANY_FROM_IP = (long)(ACR_TOO_MANY_FROM_IP);
const long K_ACR_TOO_MANY_IN_CLASS = (long)(ACR_TOO_MANY_IN_CLASS);
const long K_CGT_CREATE = (long)(CGT_CREATE);
const long K_CGT_NO_CREATE = (long)(CGT_NO_CREATE);
const long K_CLIENT_HANDLER = (long)(CLIENT_HANDLER);
const long K_CRULE_ALL = (long)(CRULE_ALL);
const long K_CRULE_AUTO = (long)(CRULE_AUTO);
const long K_CRULE_MASK = (long)(CRULE_MASK);
const long K_ET_ACCEPT = (long)(ET_ACCEPT);
const long K_ET_CONNECT = (long)(ET_CONNECT);
const long K_ET_DESTROY = (long)(ET_DESTROY);
const long K_ET_EOF = (long)(ET_EOF);
const long K_ET_ERROR = (long)(ET_ERROR);
const long K_ET_EXPIRE = (long)(ET_EXPIRE);
const long K_ET_READ = (long)(ET_READ);
const long K_ET_SIGNAL = (long)(ET_SIGNAL);
const long K_ET_WRITE = (long)(ET_WRITE);
const long K_FEAT_ANNOUNCE_INVITES = (long)(FEAT_ANNOUNCE_INVITES);
const long K_FEAT_AUTH_TIMEOUT = (long)(FEAT_AUTH_TIMEOUT);
const long K_FEAT_AVBANLEN = (long)(FEAT_AVBANLEN);
const long K_FEAT_AWAY_BURST = (long)(FEAT_AWAY_BURST);
const long K_FEAT_BUFFERPOOL = (long)(FEAT_BUFFERPOOL);
const long K_FEAT_CAP_ACCOUNTNOTIFY = (long)(FEAT_CAP_ACCOUNTNOTIFY);
const long K_FEAT_CAP_ACCOUNT_TAG = (long)(FEAT_CAP_ACCOUNT_TAG);
const long K_FEAT_CAP_AWAYNOTIFY = (long)(FEAT_CAP_AWAYNOTIFY);
const long K_FEAT_CAP_CHGHOST = (long)(FEAT_CAP_CHGHOST);
const long K_FEAT_CAP_ECHOMESSAGE = (long)(FEAT_CAP_ECHOMESSAGE);
const long K_FEAT_CAP_EXTJOIN = (long)(FEAT_CAP_EXTJOIN);
const long K_FEAT_CAP_INVITENOTIFY = (long)(FEAT_CAP_INVITENOTIFY);
const long K_FEAT_CAP_MESSAGE_TAGS = (long)(FEAT_CAP_MESSAGE_TAGS);
const long K_FEAT_CAP_SASL = (long)(FEAT_CAP_SASL);
const long K_FEAT_CAP_SERVER_TIME = (long)(FEAT_CAP_SERVER_TIME);
const long K_FEAT_CAP_UHNAMES = (long)(FEAT_CAP_UHNAMES);
const long K_FEAT_CHANNELLEN = (long)(FEAT_CHANNELLEN);
const long K_FEAT_CLIENTTAGDENY = (long)(FEAT_CLIENTTAGDENY);
const long K_FEAT_CLIENT_FLOOD = (long)(FEAT_CLIENT_FLOOD);
const long K_FEAT_CONFIG_OPERCMDS = (long)(FEAT_CONFIG_OPERCMDS);
const long K_FEAT_CONNECTFREQUENCY = (long)(FEAT_CONNECTFREQUENCY);
const long K_FEAT_CONNECTTIMEOUT = (long)(FEAT_CONNECTTIMEOUT);
const long K_FEAT_CONNEXIT_NOTICES = (long)(FEAT_CONNEXIT_NOTICES);
const long K_FEAT_DEFAULTMAXSENDQLENGTH = (long)(FEAT_DEFAULTMAXSENDQLENGTH);
const long K_FEAT_DEFAULT_LIST_PARAM = (long)(FEAT_DEFAULT_LIST_PARAM);
const long K_FEAT_DISABLE_GLINES = (long)(FEAT_DISABLE_GLINES);
const long K_FEAT_DISABLE_SLINES = (long)(FEAT_DISABLE_SLINES);
const long K_FEAT_DNS_TCP_MAXCONN = (long)(FEAT_DNS_TCP_MAXCONN);
const long K_FEAT_DOMAINNAME = (long)(FEAT_DOMAINNAME);
const long K_FEAT_GLINEMAXUSERCOUNT = (long)(FEAT_GLINEMAXUSERCOUNT);
const long K_FEAT_HANGONGOODLINK = (long)(FEAT_HANGONGOODLINK);
const long K_FEAT_HANGONRETRYDELAY = (long)(FEAT_HANGONRETRYDELAY);
const long K_FEAT_HAS_FERGUSON_FLUSHER = (long)(FEAT_HAS_FERGUSON_FLUSHER);
const long K_FEAT_HIDDEN_HOST = (long)(FEAT_HIDDEN_HOST);
const long K_FEAT_HIDDEN_IP = (long)(FEAT_HIDDEN_IP);
const long K_FEAT_HIS_BANWHO = (long)(FEAT_HIS_BANWHO);
const long K_FEAT_HIS_DEBUG_OPER_ONLY = (long)(FEAT_HIS_DEBUG_OPER_ONLY);
const long K_FEAT_HIS_KILLWHO = (long)(FEAT_HIS_KILLWHO);
const long K_FEAT_HIS_LINKS = (long)(FEAT_HIS_LINKS);
const long K_FEAT_HIS_MAP = (long)(FEAT_HIS_MAP);
const long K_FEAT_HIS_MODEWHO = (long)(FEAT_HIS_MODEWHO);
const long K_FEAT_HIS_NETSPLIT = (long)(FEAT_HIS_NETSPLIT);
const long K_FEAT_HIS_REMOTE = (long)(FEAT_HIS_REMOTE);
const long K_FEAT_HIS_REWRITE = (long)(FEAT_HIS_REWRITE);
const long K_FEAT_HIS_SERVERINFO = (long)(FEAT_HIS_SERVERINFO);
const long K_FEAT_HIS_SERVERNAME = (long)(FEAT_HIS_SERVERNAME);
const long K_FEAT_HIS_SNOTICES = (long)(FEAT_HIS_SNOTICES);
const long K_FEAT_HIS_SNOTICES_OPER_ONLY = (long)(FEAT_HIS_SNOTICES_OPER_ONLY);
const long K_FEAT_HIS_STATS_C = (long)(FEAT_HIS_STATS_C);
const long K_FEAT_HIS_STATS_IAUTH = (long)(FEAT_HIS_STATS_IAUTH);
const long K_FEAT_HIS_STATS_J = (long)(FEAT_HIS_STATS_J);
const long K_FEAT_HIS_STATS_L = (long)(FEAT_HIS_STATS_L);
const long K_FEAT_HIS_STATS_M = (long)(FEAT_HIS_STATS_M);
const long K_FEAT_HIS_STATS_R = (long)(FEAT_HIS_STATS_R);
const long K_FEAT_HIS_STATS_S = (long)(FEAT_HIS_STATS_S);
const long K_FEAT_HIS_STATS_T = (long)(FEAT_HIS_STATS_T);
const long K_FEAT_HIS_STATS_U = (long)(FEAT_HIS_STATS_U);
const long K_FEAT_HIS_STATS_W = (long)(FEAT_HIS_STATS_W);
const long K_FEAT_HIS_STATS_a = (long)(FEAT_HIS_STATS_a);
const long K_FEAT_HIS_STATS_c = (long)(FEAT_HIS_STATS_c);
const long K_FEAT_HIS_STATS_d = (long)(FEAT_HIS_STATS_d);
const long K_FEAT_HIS_STATS_e = (long)(FEAT_HIS_STATS_e);
const long K_FEAT_HIS_STATS_f = (long)(FEAT_HIS_STATS_f);
const long K_FEAT_HIS_STATS_g = (long)(FEAT_HIS_STATS_g);
const long K_FEAT_HIS_STATS_i = (long)(FEAT_HIS_STATS_i);
const long K_FEAT_HIS_STATS_j = (long)(FEAT_HIS_STATS_j);
const long K_FEAT_HIS_STATS_k = (long)(FEAT_HIS_STATS_k);
const long K_FEAT_HIS_STATS_l = (long)(FEAT_HIS_STATS_l);
const long K_FEAT_HIS_STATS_m = (long)(FEAT_HIS_STATS_m);
const long K_FEAT_HIS_STATS_o = (long)(FEAT_HIS_STATS_o);
const long K_FEAT_HIS_STATS_p = (long)(FEAT_HIS_STATS_p);
const long K_FEAT_HIS_STATS_q = (long)(FEAT_HIS_STATS_q);
const long K_FEAT_HIS_STATS_r = (long)(FEAT_HIS_STATS_r);
const long K_FEAT_HIS_STATS_s = (long)(FEAT_HIS_STATS_s);
const long K_FEAT_HIS_STATS_t = (long)(FEAT_HIS_STATS_t);
const long K_FEAT_HIS_STATS_u = (long)(FEAT_HIS_STATS_u);
const long K_FEAT_HIS_STATS_v = (long)(FEAT_HIS_STATS_v);
const long K_FEAT_HIS_STATS_w = (long)(FEAT_HIS_STATS_w);
const long K_FEAT_HIS_STATS_x = (long)(FEAT_HIS_STATS_x);
const long K_FEAT_HIS_STATS_y = (long)(FEAT_HIS_STATS_y);
const long K_FEAT_HIS_STATS_z = (long)(FEAT_HIS_STATS_z);
const long K_FEAT_HIS_TRACE = (long)(FEAT_HIS_TRACE);
const long K_FEAT_HIS_URLSERVERS = (long)(FEAT_HIS_URLSERVERS);
const long K_FEAT_HIS_WALLOPS = (long)(FEAT_HIS_WALLOPS);
const long K_FEAT_HIS_WEBIRC = (long)(FEAT_HIS_WEBIRC);
const long K_FEAT_HIS_WHOIS_IDLETIME = (long)(FEAT_HIS_WHOIS_IDLETIME);
const long K_FEAT_HIS_WHOIS_LOCALCHAN = (long)(FEAT_HIS_WHOIS_LOCALCHAN);
const long K_FEAT_HIS_WHOIS_SERVERNAME = (long)(FEAT_HIS_WHOIS_SERVERNAME);
const long K_FEAT_HIS_WHO_HOPCOUNT = (long)(FEAT_HIS_WHO_HOPCOUNT);
const long K_FEAT_HIS_WHO_SERVERNAME = (long)(FEAT_HIS_WHO_SERVERNAME);
const long K_FEAT_HOST_HIDING = (long)(FEAT_HOST_HIDING);
const long K_FEAT_HUB = (long)(FEAT_HUB);
const long K_FEAT_IDLE_FROM_MSG = (long)(FEAT_IDLE_FROM_MSG);
const long K_FEAT_IPCHECK_48_CLONE_LIMIT = (long)(FEAT_IPCHECK_48_CLONE_LIMIT);
const long K_FEAT_IPCHECK_48_CLONE_PERIOD = (long)(FEAT_IPCHECK_48_CLONE_PERIOD);
const long K_FEAT_IPCHECK_CLONE_DELAY = (long)(FEAT_IPCHECK_CLONE_DELAY);
const long K_FEAT_IPCHECK_CLONE_LIMIT = (long)(FEAT_IPCHECK_CLONE_LIMIT);
const long K_FEAT_IPCHECK_CLONE_PERIOD = (long)(FEAT_IPCHECK_CLONE_PERIOD);
const long K_FEAT_IRCD_RES_RETRIES = (long)(FEAT_IRCD_RES_RETRIES);
const long K_FEAT_IRCD_RES_TIMEOUT = (long)(FEAT_IRCD_RES_TIMEOUT);
const long K_FEAT_JOIN_TARGET = (long)(FEAT_JOIN_TARGET);
const long K_FEAT_KILLCHASETIMELIMIT = (long)(FEAT_KILLCHASETIMELIMIT);
const long K_FEAT_KILL_IPMISMATCH = (long)(FEAT_KILL_IPMISMATCH);
const long K_FEAT_LAST_F = (long)(FEAT_LAST_F);
const long K_FEAT_LOCAL_CHANNELS = (long)(FEAT_LOCAL_CHANNELS);
const long K_FEAT_LOG = (long)(FEAT_LOG);
const long K_FEAT_MAXBANS = (long)(FEAT_MAXBANS);
const long K_FEAT_MAXCHANNELSPERUSER = (long)(FEAT_MAXCHANNELSPERUSER);
const long K_FEAT_MAXSILES = (long)(FEAT_MAXSILES);
const long K_FEAT_MOTD_BANNER = (long)(FEAT_MOTD_BANNER);
const long K_FEAT_MPATH = (long)(FEAT_MPATH);
const long K_FEAT_NETWORK = (long)(FEAT_NETWORK);
const long K_FEAT_NETWORK_FEATURES = (long)(FEAT_NETWORK_FEATURES);
const long K_FEAT_NETWORK_TIME = (long)(FEAT_NETWORK_TIME);
const long K_FEAT_NICKLEN = (long)(FEAT_NICKLEN);
const long K_FEAT_NICKNAMEHISTORYLENGTH = (long)(FEAT_NICKNAMEHISTORYLENGTH);
const long K_FEAT_NODEFAULTMOTD = (long)(FEAT_NODEFAULTMOTD);
const long K_FEAT_NODNS = (long)(FEAT_NODNS);
const long K_FEAT_OPLEVELS = (long)(FEAT_OPLEVELS);
const long K_FEAT_PINGFREQUENCY = (long)(FEAT_PINGFREQUENCY);
const long K_FEAT_POLLS_PER_LOOP = (long)(FEAT_POLLS_PER_LOOP);
const long K_FEAT_PPATH = (long)(FEAT_PPATH);
const long K_FEAT_PROVIDER = (long)(FEAT_PROVIDER);
const long K_FEAT_RANDOM_SEED = (long)(FEAT_RANDOM_SEED);
const long K_FEAT_RELIABLE_CLOCK = (long)(FEAT_RELIABLE_CLOCK);
const long K_FEAT_RPATH = (long)(FEAT_RPATH);
const long K_FEAT_SERVER_PORT = (long)(FEAT_SERVER_PORT);
const long K_FEAT_SOCKRECVBUF = (long)(FEAT_SOCKRECVBUF);
const long K_FEAT_SOCKSENDBUF = (long)(FEAT_SOCKSENDBUF);
const long K_FEAT_STRICT_USERNAME = (long)(FEAT_STRICT_USERNAME);
const long K_FEAT_TLS_CIPHERS = (long)(FEAT_TLS_CIPHERS);
const long K_FEAT_TLS_SYSTEMCA = (long)(FEAT_TLS_SYSTEMCA);
const long K_FEAT_TOPIC_BURST = (long)(FEAT_TOPIC_BURST);
const long K_FEAT_TOS_CLIENT = (long)(FEAT_TOS_CLIENT);
const long K_FEAT_TOS_SERVER = (long)(FEAT_TOS_SERVER);
const long K_FEAT_URLREG = (long)(FEAT_URLREG);
const long K_FEAT_URL_CLIENTS = (long)(FEAT_URL_CLIENTS);
const long K_FEAT_WALLOPS_OPER_ONLY = (long)(FEAT_WALLOPS_OPER_ONLY);
const long K_FEAT_WEBSOCKET_ALLOWED_ORIGINS = (long)(FEAT_WEBSOCKET_ALLOWED_ORIGINS);
const long K_FEAT_WEBSOCKET_KEEPALIVE = (long)(FEAT_WEBSOCKET_KEEPALIVE);
const long K_FEAT_ZANNELS = (long)(FEAT_ZANNELS);
const long K_FLAG_ACCOUNT = (long)(FLAG_ACCOUNT);
const long K_FLAG_BLOCKED = (long)(FLAG_BLOCKED);
const long K_FLAG_BLOCK_UNAUTH_USERS = (long)(FLAG_BLOCK_UNAUTH_USERS);
const long K_FLAG_BURST = (long)(FLAG_BURST);
const long K_FLAG_BURST_ACK = (long)(FLAG_BURST_ACK);
const long K_FLAG_CAP302 = (long)(FLAG_CAP302);
const long K_FLAG_CHSERV = (long)(FLAG_CHSERV);
const long K_FLAG_CLOSING = (long)(FLAG_CLOSING);
const long K_FLAG_COMMONCHANS = (long)(FLAG_COMMONCHANS);
const long K_FLAG_DEADSOCKET = (long)(FLAG_DEADSOCKET);
const long K_FLAG_DEAF = (long)(FLAG_DEAF);
const long K_FLAG_DEBUG = (long)(FLAG_DEBUG);
const long K_FLAG_EXEMPT_THROTTLE = (long)(FLAG_EXEMPT_THROTTLE);
const long K_FLAG_GLOBAL_UMODES = (long)(FLAG_GLOBAL_UMODES);
const long K_FLAG_GOTID = (long)(FLAG_GOTID);
const long K_FLAG_HIDDENHOST = (long)(FLAG_HIDDENHOST);
const long K_FLAG_HIDEIDLE = (long)(FLAG_HIDEIDLE);
const long K_FLAG_HUB = (long)(FLAG_HUB);
const long K_FLAG_IAUTH_STATS = (long)(FLAG_IAUTH_STATS);
const long K_FLAG_INVISIBLE = (long)(FLAG_INVISIBLE);
const long K_FLAG_IPCHECK = (long)(FLAG_IPCHECK);
const long K_FLAG_IPV6 = (long)(FLAG_IPV6);
const long K_FLAG_JUNCTION = (long)(FLAG_JUNCTION);
const long K_FLAG_KILLED = (long)(FLAG_KILLED);
const long K_FLAG_LAST_FLAG = (long)(FLAG_LAST_FLAG);
const long K_FLAG_LOCAL_UMODES = (long)(FLAG_LOCAL_UMODES);
const long K_FLAG_LOCOP = (long)(FLAG_LOCOP);
const long K_FLAG_MAP = (long)(FLAG_MAP);
const long K_FLAG_NEGOTIATING_TLS = (long)(FLAG_NEGOTIATING_TLS);
const long K_FLAG_NONL = (long)(FLAG_NONL);
const long K_FLAG_OPER = (long)(FLAG_OPER);
const long K_FLAG_PINGSENT = (long)(FLAG_PINGSENT);
const long K_FLAG_SASL = (long)(FLAG_SASL);
const long K_FLAG_SERVICE = (long)(FLAG_SERVICE);
const long K_FLAG_SERVNOTICE = (long)(FLAG_SERVNOTICE);
const long K_FLAG_SPAMHOLD = (long)(FLAG_SPAMHOLD);
const long K_FLAG_TLS = (long)(FLAG_TLS);
const long K_FLAG_TS8 = (long)(FLAG_TS8);
const long K_FLAG_UPING = (long)(FLAG_UPING);
const long K_FLAG_WALLOP = (long)(FLAG_WALLOP);
const long K_GLINE_ACTIVATE = (long)(GLINE_ACTIVATE);
const long K_GLINE_DEACTIVATE = (long)(GLINE_DEACTIVATE);
const long K_GLINE_LOCAL_ACTIVATE = (long)(GLINE_LOCAL_ACTIVATE);
const long K_GLINE_LOCAL_DEACTIVATE = (long)(GLINE_LOCAL_DEACTIVATE);
const long K_GLINE_MODIFY = (long)(GLINE_MODIFY);
const long K_GLOCAL_ACTIVATED = (long)(GLOCAL_ACTIVATED);
const long K_GLOCAL_DEACTIVATED = (long)(GLOCAL_DEACTIVATED);
const long K_GLOCAL_GLOBAL = (long)(GLOCAL_GLOBAL);
const long K_IO_BLOCKED = (long)(IO_BLOCKED);
const long K_IO_FAILURE = (long)(IO_FAILURE);
const long K_IO_SUCCESS = (long)(IO_SUCCESS);
const long K_LAST_HANDLER_TYPE = (long)(LAST_HANDLER_TYPE);
const long K_LISTEN_ACTIVE = (long)(LISTEN_ACTIVE);
const long K_LISTEN_CLOUDFLARE = (long)(LISTEN_CLOUDFLARE);
const long K_LISTEN_HIDDEN = (long)(LISTEN_HIDDEN);
const long K_LISTEN_IPV4 = (long)(LISTEN_IPV4);
const long K_LISTEN_IPV6 = (long)(LISTEN_IPV6);
const long K_LISTEN_LAST_FLAG = (long)(LISTEN_LAST_FLAG);
const long K_LISTEN_SERVER = (long)(LISTEN_SERVER);
const long K_LISTEN_TLS = (long)(LISTEN_TLS);
const long K_LISTEN_WEBIRC = (long)(LISTEN_WEBIRC);
const long K_LISTEN_WEBSOCKET = (long)(LISTEN_WEBSOCKET);
const long K_LS_CONFIG = (long)(LS_CONFIG);
const long K_LS_DEBUG = (long)(LS_DEBUG);
const long K_LS_GLINE = (long)(LS_GLINE);
const long K_LS_IAUTH = (long)(LS_IAUTH);
const long K_LS_JUPE = (long)(LS_JUPE);
const long K_LS_LAST_SYSTEM = (long)(LS_LAST_SYSTEM);
const long K_LS_NETWORK = (long)(LS_NETWORK);
const long K_LS_OPER = (long)(LS_OPER);
const long K_LS_OPERKILL = (long)(LS_OPERKILL);
const long K_LS_OPERMODE = (long)(LS_OPERMODE);
const long K_LS_RESOLVER = (long)(LS_RESOLVER);
const long K_LS_SERVKILL = (long)(LS_SERVKILL);
const long K_LS_SOCKET = (long)(LS_SOCKET);
const long K_LS_SYSTEM = (long)(LS_SYSTEM);
const long K_LS_USER = (long)(LS_USER);
const long K_LS_WHO = (long)(LS_WHO);
const long K_L_CRIT = (long)(L_CRIT);
const long K_L_DEBUG = (long)(L_DEBUG);
const long K_L_ERROR = (long)(L_ERROR);
const long K_L_INFO = (long)(L_INFO);
const long K_L_LAST_LEVEL = (long)(L_LAST_LEVEL);
const long K_L_NOTICE = (long)(L_NOTICE);
const long K_L_TRACE = (long)(L_TRACE);
const long K_L_WARNING = (long)(L_WARNING);
const long K_MOTD_CLASS = (long)(MOTD_CLASS);
const long K_MOTD_HOSTMASK = (long)(MOTD_HOSTMASK);
const long K_MOTD_IPMASK = (long)(MOTD_IPMASK);
const long K_MOTD_UNIVERSAL = (long)(MOTD_UNIVERSAL);
const long K_NETCONF_LAST_NC = (long)(NETCONF_LAST_NC);
const long K_NETCONF_SASL_MECHANISMS = (long)(NETCONF_SASL_MECHANISMS);
const long K_NETCONF_SASL_SERVER = (long)(NETCONF_SASL_SERVER);
const long K_NETCONF_SASL_TIMEOUT = (long)(NETCONF_SASL_TIMEOUT);
const long K_NETCONF_SLINE_HOLD_TIMEOUT = (long)(NETCONF_SLINE_HOLD_TIMEOUT);
const long K_NETCONF_SLINE_HOLD_TIMEOUT_BLOCK = (long)(NETCONF_SLINE_HOLD_TIMEOUT_BLOCK);
const long K_NETCONF_SLINE_SERVER = (long)(NETCONF_SLINE_SERVER);
const long K_OPER_HANDLER = (long)(OPER_HANDLER);
const long K_PRIV_APASS_OPMODE = (long)(PRIV_APASS_OPMODE);
const long K_PRIV_BADCHAN = (long)(PRIV_BADCHAN);
const long K_PRIV_CHAN_LIMIT = (long)(PRIV_CHAN_LIMIT);
const long K_PRIV_DEOP_LCHAN = (long)(PRIV_DEOP_LCHAN);
const long K_PRIV_DIE = (long)(PRIV_DIE);
const long K_PRIV_DISPLAY = (long)(PRIV_DISPLAY);
const long K_PRIV_FORCE_LOCAL_OPMODE = (long)(PRIV_FORCE_LOCAL_OPMODE);
const long K_PRIV_FORCE_OPMODE = (long)(PRIV_FORCE_OPMODE);
const long K_PRIV_GLINE = (long)(PRIV_GLINE);
const long K_PRIV_JUPE = (long)(PRIV_JUPE);
const long K_PRIV_KILL = (long)(PRIV_KILL);
const long K_PRIV_LAST_PRIV = (long)(PRIV_LAST_PRIV);
const long K_PRIV_LIST_CHAN = (long)(PRIV_LIST_CHAN);
const long K_PRIV_LOCAL_BADCHAN = (long)(PRIV_LOCAL_BADCHAN);
const long K_PRIV_LOCAL_GLINE = (long)(PRIV_LOCAL_GLINE);
const long K_PRIV_LOCAL_JUPE = (long)(PRIV_LOCAL_JUPE);
const long K_PRIV_LOCAL_KILL = (long)(PRIV_LOCAL_KILL);
const long K_PRIV_LOCAL_OPMODE = (long)(PRIV_LOCAL_OPMODE);
const long K_PRIV_MODE_LCHAN = (long)(PRIV_MODE_LCHAN);
const long K_PRIV_OPMODE = (long)(PRIV_OPMODE);
const long K_PRIV_PROPAGATE = (long)(PRIV_PROPAGATE);
const long K_PRIV_REHASH = (long)(PRIV_REHASH);
const long K_PRIV_RESTART = (long)(PRIV_RESTART);
const long K_PRIV_SEE_CHAN = (long)(PRIV_SEE_CHAN);
const long K_PRIV_SEE_OPERS = (long)(PRIV_SEE_OPERS);
const long K_PRIV_SET = (long)(PRIV_SET);
const long K_PRIV_SHOW_ALL_INVIS = (long)(PRIV_SHOW_ALL_INVIS);
const long K_PRIV_SHOW_INVIS = (long)(PRIV_SHOW_INVIS);
const long K_PRIV_UNLIMIT_QUERY = (long)(PRIV_UNLIMIT_QUERY);
const long K_PRIV_WALK_LCHAN = (long)(PRIV_WALK_LCHAN);
const long K_PRIV_WHOX = (long)(PRIV_WHOX);
const long K_PRIV_WIDE_GLINE = (long)(PRIV_WIDE_GLINE);
const long K_SERVER_HANDLER = (long)(SERVER_HANDLER);
const long K_SERVICE_HANDLER = (long)(SERVICE_HANDLER);
const long K_SS_CONNECTDG = (long)(SS_CONNECTDG);
const long K_SS_CONNECTED = (long)(SS_CONNECTED);
const long K_SS_CONNECTING = (long)(SS_CONNECTING);
const long K_SS_DATAGRAM = (long)(SS_DATAGRAM);
const long K_SS_LISTENING = (long)(SS_LISTENING);
const long K_SS_NOTSOCK = (long)(SS_NOTSOCK);
const long K_TAGP_ACCOUNT = (long)(TAGP_ACCOUNT);
const long K_TAGP_NONE = (long)(TAGP_NONE);
const long K_TAGP_TIME = (long)(TAGP_TIME);
const long K_TT_ABSOLUTE = (long)(TT_ABSOLUTE);
const long K_TT_PERIODIC = (long)(TT_PERIODIC);
const long K_TT_RELATIVE = (long)(TT_RELATIVE);
const long K_UNREGISTERED_HANDLER = (long)(UNREGISTERED_HANDLER);
const long K_WS_BINARY = (long)(WS_BINARY);
const long K_WS_NONE = (long)(WS_NONE);
const long K_WS_TEXT = (long)(WS_TEXT);
