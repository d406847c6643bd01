----------------------------- MODULE Dictionary -----------------------------
(***************************************************************************)
(* The EMV data dictionary and the code tables: what tags and codes mean.  *)
(* Tags and codes are given in hexadecimal, as they're usually written.    *)
(***************************************************************************)
EXTENDS PemvText

\* EMV Book 3, Annex A (and ISO/IEC 7816-6 for 42, 4F .. 5F57)
TagNames == <<
    <<"42", "Issuer Identification Number (IIN)">>,
    <<"4F", "Application Dedicated File (ADF) Name">>,
    <<"50", "Application Label">>,
    <<"57", "Track 2 Equivalent Data">>,
    <<"5A", "Application Primary Account Number (PAN)">>,
    <<"5F20", "Cardholder Name">>,
    <<"5F24", "Application Expiration Date">>,
    <<"5F25", "Application Effective Date">>,
    <<"5F28", "Issuer Country Code">>,
    <<"5F2A", "Transaction Currency Code">>,
    <<"5F2D", "Language Preference">>,
    <<"5F30", "Service Code">>,
    <<"5F34", "Application Primary Account Number (PAN) Sequence Number">>,
    <<"5F36", "Transaction Currency Exponent">>,
    <<"5F50", "Issuer URL">>,
    <<"5F53", "International Bank Account Number (IBAN)">>,
    <<"5F54", "Bank Identifier Code (BIC)">>,
    <<"5F55", "Issuer Country Code (alpha2 format)">>,
    <<"5F56", "Issuer Country Code (alpha3 format)">>,
    <<"5F57", "Account Type">>,
    <<"61", "Application Template">>,
    <<"6F", "File Control Information (FCI) Template">>,
    <<"70", "READ RECORD Response Message Template">>,
    <<"71", "Issuer Script Template 1">>,
    <<"72", "Issuer Script Template 2">>,
    <<"73", "Directory Discretionary Template">>,
    <<"77", "Response Message Template Format 2">>,
    <<"80", "Response Message Template Format 1">>,
    <<"81", "Amount, Authorised (Binary)">>,
    <<"82", "Application Interchange Profile">>,
    <<"83", "Command Template">>,
    <<"84", "Dedicated File (DF) Name">>,
    <<"86", "Issuer Script Command">>,
    <<"87", "Application Priority Indicator">>,
    <<"88", "Short File Identifier (SFI)">>,
    <<"89", "Authorisation Code">>,
    <<"8A", "Authorisation Response Code">>,
    <<"8C", "Card Risk Management Data Object List 1 (CDOL1)">>,
    <<"8D", "Card Risk Management Data Object List 2 (CDOL2)">>,
    <<"8E", "CVM List">>,
    <<"8F", "Certification Authority Public Key Index (ICC)">>,
    <<"90", "Issuer Public Key Certificate">>,
    <<"91", "Issuer Authentication Data">>,
    <<"92", "Issuer Public Key Remainder">>,
    <<"93", "Signed Static Application Data">>,
    <<"94", "Application File Locator (AFL)">>,
    <<"95", "Terminal Verification Results (TVR)">>,
    <<"97", "Transaction Certificate Data Object List (TDOL)">>,
    <<"98", "Transaction Certificate (TC) Hash Value">>,
    <<"99", "Transaction PIN Data">>,
    <<"9A", "Transaction Date">>,
    <<"9B", "Transaction Status Information (TSI)">>,
    <<"9C", "Transaction Type">>,
    <<"9D", "Directory Definition File (DDF) Name">>,
    <<"9F01", "Acquirer Identifier">>,
    <<"9F02", "Amount, Authorised (Numeric)">>,
    <<"9F03", "Amount, Other (Numeric)">>,
    <<"9F04", "Amount, Other (Binary)">>,
    <<"9F05", "Application Discretionary Data">>,
    <<"9F06", "Application Identifier (AID)">>,
    <<"9F07", "Application Usage Control">>,
    <<"9F08", "Application Version Number (ICC)">>,
    <<"9F09", "Application Version Number (Terminal)">>,
    <<"9F0B", "Cardholder Name Extended">>,
    <<"9F0D", "Issuer Action Code - Default">>,
    <<"9F0E", "Issuer Action Code - Denial">>,
    <<"9F0F", "Issuer Action Code - Online">>,
    <<"9F10", "Issuer Application Data (CCD-Compliant)">>,
    <<"9F11", "Issuer Code Table Index">>,
    <<"9F12", "Application Preferred Name">>,
    <<"9F13", "Last Online Application Transaction Counter (ATC) Register">>,
    <<"9F14", "Lower Consecutive Offline Limit">>,
    <<"9F15", "Merchant Category Code">>,
    <<"9F16", "Merchant Identifier">>,
    <<"9F17", "PIN Try Counter">>,
    <<"9F18", "Issuer Script Identifier">>,
    <<"9F1A", "Terminal Country Code">>,
    <<"9F1B", "Terminal Floor Limit">>,
    <<"9F1C", "Terminal Identification">>,
    <<"9F1D", "Terminal Risk Management Data">>,
    <<"9F1E", "Interface Device (IFD/Terminal) Serial Number">>,
    <<"9F1F", "Track 1 Discretionary Data">>,
    <<"9F20", "Track 2 Discretionary Data">>,
    <<"9F21", "Transaction Time">>,
    <<"9F22", "Certification Authority Public Key Index (Terminal)">>,
    <<"9F23", "Upper Consecutive Offline Limit">>,
    <<"9F26", "Application Cryptogram">>,
    <<"9F27", "Cryptogram Information Data (CID)">>,
    <<"9F2D", "ICC PIN Encipherment Public Key Certificate">>,
    <<"9F2E", "ICC PIN Encipherment Public Key Exponent">>,
    <<"9F2F", "ICC PIN Encipherment Public Key Remainder">>,
    <<"9F32", "Issuer Public Key Exponent">>,
    <<"9F33", "Terminal Capabilities">>,
    <<"9F34", "CVM Results">>,
    <<"9F35", "Terminal Type">>,
    <<"9F36", "Application Transaction Counter (ATC)">>,
    <<"9F37", "Unpredictable Number">>,
    <<"9F38", "Processing Options Data Object List (PDOL)">>,
    <<"9F39", "POS Entry Mode">>,
    <<"9F3A", "Amount, Reference Currency (Binary)">>,
    <<"9F3B", "Application Reference Currency">>,
    <<"9F3C", "Transaction Reference Currency Code">>,
    <<"9F3D", "Transaction Reference Currency Exponent">>,
    <<"9F40", "Additional Terminal Capabilities">>,
    <<"9F41", "Transaction Sequence Counter">>,
    <<"9F42", "Application Currency Code">>,
    <<"9F43", "Application Reference Currency Exponent">>,
    <<"9F44", "Application Currency Exponent">>,
    <<"9F45", "Data Authentication Code">>,
    <<"9F46", "ICC Public Key Certificate">>,
    <<"9F47", "ICC Public Key Exponent">>,
    <<"9F48", "ICC Public Key Remainder">>,
    <<"9F49", "Dynamic Data Authentication Data Object List (DDOL)">>,
    <<"9F4A", "Static Data Authentication Tag List">>,
    <<"9F4B", "Signed Dynamic Application Data">>,
    <<"9F4C", "ICC Dynamic Number">>,
    <<"9F4D", "Log Entry">>,
    <<"9F4E", "Merchant Name and Location">>,
    <<"9F4F", "Log Format">>,
    <<"A5", "File Control Information (FCI) Proprietary Template">>,
    <<"BF0C", "File Control Information (FCI) Issuer Discretionary Data">> >>

\* ISO 8583:1987 response codes, by their two characters
ResponseCodes == <<
    <<"00", "Approval">>,
    <<"01", "Call">>,
    <<"02", "Call - Special Conditions">>,
    <<"03", "Terminal ID Error">>,
    <<"04", "Hold Card - Call">>,
    <<"05", "Decline - Do Not Honour">>,
    <<"06", "Error">>,
    <<"07", "Hold Card - Call - Special Conditions">>,
    <<"08", "Honour With Identification">>,
    <<"09", "No Original Transaction">>,
    <<"10", "Partial Approval">>,
    <<"11", "Approved (VIP)">>,
    <<"12", "Invalid Transaction">>,
    <<"13", "Invalid Amount">>,
    <<"14", "Invalid Card Number">>,
    <<"15", "No Such Issuer">>,
    <<"16", "Approved - Update Track 3">>,
    <<"17", "Customer Cancellation">>,
    <<"18", "Customer Dispute">>,
    <<"19", "Retry Transaction">>,
    <<"20", "Invalid Response">>,
    <<"21", "No Action Taken">>,
    <<"22", "Suspected Malfunction">>,
    <<"23", "Invalid Minimum Amount">>,
    <<"24", "File Update Not Supported">>,
    <<"25", "Invalid ICC Data">>,
    <<"26", "Duplicate File Update Record">>,
    <<"27", "File Update Field Edit Error">>,
    <<"28", "File Update File Locked Out">>,
    <<"29", "File Update Not Successful">>,
    <<"30", "Format Error">>,
    <<"31", "Bank Not Supported By Switch">>,
    <<"32", "Completed Partially">>,
    <<"33", "Expired Card">>,
    <<"34", "Suspected Fraud">>,
    <<"35", "Card Acceptor, Contact Acquirer">>,
    <<"36", "Restricted Card">>,
    <<"37", "Card Acceptor, Call Acquirer Security">>,
    <<"38", "Allowable PIN Retries Exceeded">>,
    <<"39", "No Credit Account">>,
    <<"40", "Requested Function Not Supported">>,
    <<"41", "Lost Card">>,
    <<"42", "No Universal Account">>,
    <<"43", "Stolen Card">>,
    <<"44", "No Investment Account">>,
    <<"51", "Insufficient Funds">>,
    <<"52", "No Chequing Account">>,
    <<"53", "No Savings Account">>,
    <<"54", "Expired Card">>,
    <<"55", "Incorrect PIN">>,
    <<"56", "No Card Record">>,
    <<"57", "Transaction Not Allowed For Cardholder">>,
    <<"58", "Transaction Not Allowed For Terminal">>,
    <<"59", "Suspected Fraud">>,
    <<"60", "Card Acceptor, Contact Acquirer">>,
    <<"61", "Debit Cashback Withdrawal Limit Decline">>,
    <<"62", "Restricted Card">>,
    <<"63", "Security Violation">>,
    <<"64", "Original Amount Incorrect">>,
    <<"65", "Decline - Insert Card (often due to too many contactless transactions)">>,
    <<"66", "Card Acceptor, Call Acquirer Security">>,
    <<"67", "ATM Hard Card Capture">>,
    <<"68", "Response Received Too Late">>,
    <<"75", "Allowable PIN Retries Exceeded">>,
    <<"91", "Issuer Timeout">>,
    <<"92", "Issuer Routing Problem">>,
    <<"93", "Transaction Not Completed - Law Violation">>,
    <<"94", "Duplicate Transmission">>,
    <<"95", "Reconciliation Error">>,
    <<"96", "System Malfunction">> >>

\* ISO 8583:1987 processing codes, first two digits
TransactionTypes == <<
    <<"00", "Purchase">>,
    <<"01", "Cash Advance">>,
    <<"02", "Void">>,
    <<"09", "Purchase With Cashback">>,
    <<"20", "Refund">>,
    <<"31", "Balance Inquiry">>,
    <<"38", "Mini Statement">>,
    <<"40", "Fund Transfer">> >>

\* EMV Book 4, section A1
TerminalTypes == <<
    <<"11", "Attended, Online-Only, Controlled by a Financial Institution">>,
    <<"12", "Attended, Offline With Online Capabilities, Controlled by a Financial Institution">>,
    <<"13", "Attended, Offline-Only, Controlled by a Financial Institution">>,
    <<"14", "Unattended, Online-Only, Controlled by a Financial Institution (ATM if it supports Cash Disbursement)">>,
    <<"15", "Unattended, Offline With Online Capabilities, Controlled by a Financial Institution (ATM if it supports Cash Disbursement)">>,
    <<"16", "Unattended, Offline-Only, Controlled by a Financial Institution (ATM if it supports Cash Disbursement)">>,
    <<"21", "Attended, Online-Only, Controlled by a Merchant">>,
    <<"22", "Attended, Offline With Online Capabilities, Controlled by a Merchant">>,
    <<"23", "Attended, Offline-Only, Controlled by a Merchant">>,
    <<"24", "Unattended, Online-Only, Controlled by a Merchant">>,
    <<"25", "Unattended, Offline With Online Capabilities, Controlled by a Merchant">>,
    <<"26", "Unattended, Offline-Only, Controlled by a Merchant">>,
    <<"34", "Unattended, Online-Only, Controlled by the Cardholder (self-attended, home PC, etc.)">>,
    <<"35", "Unattended, Offline With Online Capabilities, Controlled by the Cardholder (self-attended, home PC, etc.)">>,
    <<"36", "Unattended, Offline-Only, Controlled by the Cardholder (self-attended, home PC, etc.)">> >>

\* ISO 8583:1987 POS entry modes, first two digits
PosEntryModes == <<
    <<"00", "Unknown">>,
    <<"01", "Manual (keyed entry)">>,
    <<"02", "Magnetic Stripe Reader (MSR)">>,
    <<"03", "Barcode">>,
    <<"04", "Optical Character Recognition (OCR)">>,
    <<"05", "Integrated Circuit Chip (ICC) - Data Reliable (contact/insert transaction) (CVV can be checked)">>,
    <<"06", "Magnetic Stripe Track 1">>,
    <<"07", "Contactless Chip (contactless/tap transaction)">>,
    <<"08", "Contactless Chip (contactless/tap transaction) - Contactless Mapping Service Applied">>,
    <<"09", "E-Commerce - Including Remote Chip">>,
    <<"10", "Merchant Has Cardholder Credentials On File (token, recurring payment, etc.)">>,
    <<"80", "ICC Could Not Process - Fallback to MSR">>,
    <<"81", "E-Commerce - Including Chip">>,
    <<"82", "Via a Server (issuer, acquirer, third-party vendor)">>,
    <<"83", "Contactless Chip (contactless/tap transaction)">>,
    <<"90", "Magnetic Stripe Reader (MSR) - Full Track Data - Data Reliable (CVV can be checked)">>,
    <<"91", "Contactless Magnetic Stripe Data (MSD)">>,
    <<"92", "Contactless Chip (contactless/tap transaction) - Contactless Mapping Service Applied">>,
    <<"95", "Integrated Circuit Chip (ICC) - Data Unreliable (contact/insert transaction) (CVV cannot be checked)">> >>

\* EMV Book 3, table 39: bits 6 to 1 of the first byte of a CV rule
CvMethods == <<
    <<"00", "Fail CVM processing">>,
    <<"01", "Plaintext PIN verification performed by ICC">>,
    <<"02", "Enciphered PIN verified online">>,
    <<"03", "Plaintext PIN verification performed by ICC and signature (paper)">>,
    <<"04", "Enciphered PIN verification performed by ICC">>,
    <<"05", "Enciphered PIN verification performed by ICC and signature (paper)">>,
    <<"1E", "Signature (paper)">>,
    <<"1F", "No CVM required">>,
    <<"3F", "No CVM performed">> >>

\* EMV Book 3, table 40: the second byte of a CV rule
CvmConditions == <<
    <<"00", "Always">>,
    <<"01", "If unattended cash">>,
    <<"02", "If not unattended cash and not manual cash and not purchase with cashback">>,
    <<"03", "If terminal supports the CVM">>,
    <<"04", "If manual cash">>,
    <<"05", "If purchase with cashback">>,
    <<"06", "If transaction is in the application currency and is under X value">>,
    <<"07", "If transaction is in the application currency and is over X value">>,
    <<"08", "If transaction is in the application currency and is under Y value">>,
    <<"09", "If transaction is in the application currency and is over Y value">> >>

ToTable(rows) == [c \in { rows[i][1] : i \in 1..Len(rows) } |->
                     rows[CHOOSE i \in 1..Len(rows) : rows[i][1] = c][2]]
TagTable == ToTable(TagNames)
ResponseTable == ToTable(ResponseCodes)
TransactionTable == ToTable(TransactionTypes)
TerminalTable == ToTable(TerminalTypes)
PosEntryTable == ToTable(PosEntryModes)
MethodTable == ToTable(CvMethods)
ConditionTable == ToTable(CvmConditions)

UnknownName == "<Unknown>"
IsKnownTag(tag) == HexOf(tag) \in DOMAIN TagTable
TagName(tag) == LET h == HexOf(tag) IN IF h \in DOMAIN TagTable THEN TagTable[h] ELSE UnknownName

TagClasses == <<"Universal", "Application", "Context-Specific", "Private">>
TagClass(tag) == TagClasses[(tag[1] \div 64) + 1]
TagType(tag) == IF Bit(tag[1], 5) = 1 THEN "Constructed" ELSE "Primitive"

\* Every tag and every code has one meaning, and no two tags share a name.
ASSUME \A i, j \in 1..Len(TagNames) : i # j => TagNames[i][1] # TagNames[j][1] /\ TagNames[i][2] # TagNames[j][2]
ASSUME \A t \in { ResponseCodes, TransactionTypes, TerminalTypes, PosEntryModes, CvMethods, CvmConditions } :
          \A i, j \in 1..Len(t) : i # j => t[i][1] # t[j][1]
=============================================================================
